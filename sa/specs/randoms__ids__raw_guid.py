MODULE = "aiootp.randoms.ids.raw_guid"

from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._exceptions import Issue
from aiootp.commons import ConfigMap, FrozenInstance
from aiootp.asynchs import asleep
from aiootp.randoms.ids.raw_guid_config import RawGUIDConfig, RawGUIDContainer



class RawGUID(FrozenInstance):
    _configs = ConfigMap(mapping={config_id: RawGUIDConfig(timestamp_bytes=8, prf_bytes=config_id - 10, node_id_bytes=1, ticker_bytes=1, size=config_id) for config_id in range(12, 33)}, config_type=RawGUIDConfig)

    def _process_node_id(self, node_id):
        node_id_bytes = self.config.NODE_ID_BYTES
        if len(node_id) != node_id_bytes:
            raise Issue.invalid_length('node_id', node_id_bytes)
        return node_id

    def __init__(self, node_id=b'\x00', *, config_id: t.Hashable=16):
        self.config = self._configs[config_id]
        self.node_id = self._process_node_id(node_id)
        self.tick = 0

    def _incremented_tick(self):
        c = self.config
        object.__setattr__(self, 'tick', self.tick + 1 & c.TICK_DOMAIN)
        return self.tick.to_bytes(c.TICKER_BYTES, BIG)

    def new(self):
        config = self.config
        return config.clock.make_timestamp(size=config.TIMESTAMP_BYTES) + config.prf(config.PRF_BYTES) + self.node_id + self._incremented_tick()

    def read(self, guid):
        return RawGUIDContainer(guid, config=self.config)
