MODULE = "aiootp.randoms.ids.guid"

from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._exceptions import Issue
from aiootp._permutations import FastAffineXORChain
from aiootp.commons import ConfigMap, FrozenInstance
from aiootp.randoms.ids.raw_guid import RawGUID, RawGUIDContainer
from aiootp.randoms.ids.guid_config import GUIDConfig



class GUID(FrozenInstance):
    _configs = ConfigMap(mapping={config_id: GUIDConfig(config_id=config_id, size=config_id, raw_guid_type=RawGUID, permutation_type=FastAffineXORChain) for config_id in range(12, 33)}, config_type=GUIDConfig)

    @classmethod
    def key_size(cls, config_id: t.Hashable):
        return cls._configs[config_id].KEY_SIZE

    def _initialize_permutation(self, key):
        config_id = self.config.PERMUTATION_CONFIG_ID
        return self.config.Permutation(key=key, config_id=config_id)

    def __init__(self, *, key: bytes | None=None, node_id=b'\x00', config_id: t.Hashable=16):
        self.config = c = self._configs[config_id]
        key = key or c._DEFAULT_KEY
        self._raw_guid = c.RawGUID(node_id=node_id, config_id=config_id)
        self._permutation = self._initialize_permutation(key)

    def new(self):
        return self._permutation.permute(int.from_bytes(self._raw_guid.new(), BIG)).to_bytes(self.config.SIZE, BIG)

    def read(self, guid):
        if len(guid) != self.config.SIZE:
            raise Issue.invalid_length('guid', len(guid))
        guid = int.from_bytes(guid, BIG)
        original = self._permutation.invert(guid)
        return self._raw_guid.read(original.to_bytes(self.config.SIZE, BIG))
