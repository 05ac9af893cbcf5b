MODULE = "aiootp.ciphers.ciphertext_formatting"

from io import BytesIO
from aiootp._typing import Typing as t
from aiootp._exceptions import InvalidCiphertextSize
from aiootp.commons import OpenFrozenSlots



class Ciphertext(OpenFrozenSlots):
    _UNMAPPED_ATTRIBUTES = frozenset({'config'})
    InvalidCiphertextSize = InvalidCiphertextSize

    def __init__(self, data, *, config: t.ConfigType):
        self.config = config
        self._ensure_valid_size(len(data))
        data = BytesIO(data)
        self.shmac = data.read(config.SHMAC_BYTES)
        self.salt = data.read(config.SALT_BYTES)
        self.iv = data.read(config.IV_BYTES)
        self.ciphertext = data.read()

    def _ensure_valid_size(self, data_length: int):
        size = data_length - self.config.HEADER_BYTES
        if size <= 0 or size % self.config.BLOCKSIZE:
            raise InvalidCiphertextSize(data_length)
