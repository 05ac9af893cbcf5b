MODULE = "aiootp.ciphers.cipher_kdfs"

from aiootp._typing import Typing as t
from aiootp._constants.misc import MIN_KEY_BYTES
from aiootp._exceptions import KeyAADIssue, Issue
from aiootp.commons import Config, FrozenInstance
from aiootp.generics import Domains
from aiootp.generics import encode_key, fullblock_ljust



class ShakeConfig(Config):
    slots_types = dict(name=str, pad=bytes, offset_amount=int, offset=bytes, blocksize=int, double_blocksize=int, hasher_type=type, hasher=t.Callable, factory=t.Callable, key_slice=slice)

    def __init__(self, name, pad, offset_amount: int, hasher: t.Callable, key_slice: slice | None):
        self.name = name
        self.pad = pad
        self.offset_amount = offset_amount
        self.offset = offset_amount * pad
        self.hasher = hasher
        self.hasher_type = type(hasher())
        self.blocksize = hasher().block_size
        self.double_blocksize = 2 * self.blocksize
        self.key_slice = key_slice

    def prepare_factory(self, config_id, packed_metadata):
        self.factory = self.hasher(Domains.encode_constant(f'{self.name}_salt', domain=config_id, aad=packed_metadata, size=self.double_blocksize)).copy
        return self


class KeyedCipherKDF(FrozenInstance):

    def __init__(self, key, config: ShakeConfig):
        self.config = config
        self.kdf = config.factory()
        self.kdf.update(encode_key(key, config.blocksize, pad=config.pad))

    def new_session_copy(self, summary):
        config = self.config
        session_kdf = self.kdf.copy()
        session_kdf.update(fullblock_ljust(summary, config.blocksize, pad=config.pad) + config.offset)
        return session_kdf


class CipherKDFs(FrozenInstance):

    def test_key_validity(self, key):
        if key.__class__ is not bytes:
            raise Issue.must_be_type('key', bytes)
        elif len(key) < MIN_KEY_BYTES:
            raise KeyAADIssue.invalid_key_size(len(key), MIN_KEY_BYTES)

    def key_base_kdf(self, name, *, key):
        return KeyedCipherKDF(key, self.config.KDF_CONFIGS[name])
