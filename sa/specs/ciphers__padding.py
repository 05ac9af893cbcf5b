MODULE = "aiootp.ciphers.padding"

from secrets import token_bytes
from aiootp._typing import Typing as t
from aiootp._constants import DEFAULT_TTL, BIG
from aiootp.asynchs import asleep
from aiootp.commons import FrozenTypedSlots, FrozenInstance



class PlaintextMeasurements(FrozenTypedSlots):
    slots_types = dict(padding_size=int, pad_sentinel=bytes)

    def __init__(self, /, padding_size: int, pad_sentinel):
        self.padding_size = padding_size
        self.pad_sentinel = pad_sentinel


class Padding(FrozenInstance):

    def __init__(self, /, config: t.ConfigType):
        self.config = config

    def _make_timestamp(self, /):
        c = self.config
        return c.clock.make_timestamp(size=c.TIMESTAMP_BYTES)

    def _make_siv_key(self, /):
        return token_bytes(self.config.SIV_KEY_BYTES)

    def start_padding(self, /):
        return self._make_timestamp() + self._make_siv_key()

    def _make_extra_padding(self, /):
        return token_bytes(self.config.PADDING_FRAME)

    def _data_measurements(self, /, size: int):
        c = self.config
        remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME
        padding_size = c.PADDING_FRAME - remainder
        sentinel = padding_size % c.PADDING_FRAME
        return PlaintextMeasurements(padding_size=padding_size, pad_sentinel=sentinel.to_bytes(c.SENTINEL_BYTES, BIG))

    def _make_end_padding(self, /, report: PlaintextMeasurements):
        extra_padding = self._make_extra_padding()
        return extra_padding + report.pad_sentinel

    def end_padding(self, /, size: int):
        report = self._data_measurements(size)
        padding = self._make_end_padding(report)
        return padding[-report.padding_size:]

    def pad_plaintext(self, /, data):
        start_padding = self.start_padding()
        end_padding = self.end_padding(len(data))
        return b''.join((start_padding, data, end_padding))

    def depadding_start_index(self, /):
        return self.config.INNER_HEADER_BYTES

    def depadding_end_index(self, /, data):
        sentinel = int.from_bytes(data[self.config.SENTINEL_SLICE], BIG)
        return -(sentinel or self.config.PADDING_FRAME)

    def depad_plaintext(self, /, data, *, ttl: int | None=DEFAULT_TTL):
        config = self.config
        config.clock.test_timestamp(data[config.TIMESTAMP_SLICE], ttl=ttl)
        start_index = self.depadding_start_index()
        end_index = self.depadding_end_index(data)
        return data[start_index:end_index]
