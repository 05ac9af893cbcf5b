MODULE = "aiootp.ciphers.cipher_stream_properties"

from aiootp._typing import Typing as t
from aiootp._exceptions import TimestampExpired
from aiootp._exceptions import InvalidBlockID, InvalidSHMAC
from aiootp.commons import OpenFrozenSlots
from aiootp.asynchs import ConcurrencyGuard, DequePair



class AuthFail(OpenFrozenSlots):

    def __init__(self, block_id, block, buffer: t.Callable):
        self.block_id = block_id
        self.block = block
        self.buffer = buffer


class CipherStreamProperties:
    _DequePair = DequePair
    _Guard = ConcurrencyGuard
    InvalidBlockID = InvalidBlockID
    InvalidSHMAC = InvalidSHMAC
    TimestampExpired = TimestampExpired

    @property
    def PACKETSIZE(self):
        return self._config.PACKETSIZE

    @property
    def aad(self):
        return self._key_bundle.aad

    @property
    def salt(self):
        return self._key_bundle.salt

    @property
    def iv(self):
        return self._key_bundle.iv
