MODULE = "aiootp.randoms.ids.raw_guid_config"

import io
import warnings
from secrets import token_bytes
from aiootp._typing import Typing as t
from aiootp._constants import NANOSECONDS, BIG
from aiootp._exceptions import Issue
from aiootp.commons import Config, OpenFrozenSlots
from aiootp.asynchs import Clock



class RawGUIDConfig(Config):
    slots_types = dict(TIMESTAMP_BYTES=int, PRF_BYTES=int, NODE_ID_BYTES=int, TICKER_BYTES=int, TICK_DOMAIN=int, SIZE=int, clock=t.ClockType, prf=t.Callable)

    def _process_size(self, size: int):
        if size != self.TIMESTAMP_BYTES + self.PRF_BYTES + self.NODE_ID_BYTES + self.TICKER_BYTES:
            raise Issue.invalid_length('stated guid size', size)
        return size

    def _process_clock(self, clock: type | None):
        if clock is None:
            return Clock(NANOSECONDS)
        else:
            return clock

    def __init__(self, *, timestamp_bytes: int, prf_bytes: int, node_id_bytes: int, ticker_bytes: int, size: int, clock=None, prf: t.Callable[[int], bytes]=token_bytes):
        self.TIMESTAMP_BYTES = timestamp_bytes
        self.PRF_BYTES = prf_bytes
        self.NODE_ID_BYTES = node_id_bytes
        self.TICKER_BYTES = ticker_bytes
        self.TICK_DOMAIN = int(self.TICKER_BYTES * 'ff', 16)
        self.SIZE = self._process_size(size)
        self.clock = self._process_clock(clock)
        self.prf = prf


class RawGUIDContainer(OpenFrozenSlots):

    def __init__(self, guid, *, config: RawGUIDConfig):
        if not len(guid) == config.SIZE:
            raise Issue.invalid_length('raw guid', config.SIZE)
        reader = io.BytesIO(guid).read
        self.timestamp = reader(config.TIMESTAMP_BYTES)
        self.token = reader(config.PRF_BYTES)
        self.node_id = reader(config.NODE_ID_BYTES)
        self.ticker = reader(config.TICKER_BYTES)

    def __hash__(self):
        return int.from_bytes(self.sort_key, BIG)

    def __eq__(self, other: t.Cls):
        return self.sort_key == other.sort_key

    def __gt__(self, other: t.Cls):
        return self.sort_key > other.sort_key

    def __lt__(self, other: t.Cls):
        return self.sort_key < other.sort_key

    @property
    def sort_key(self):
        return self.timestamp + self.node_id + self.ticker + self.token


if not Clock(NANOSECONDS).has_adequate_resolution():
    warnings.warn("resolution")
