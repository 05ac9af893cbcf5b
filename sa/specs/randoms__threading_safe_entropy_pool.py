MODULE = "aiootp.randoms.threading_safe_entropy_pool"

from secrets import token_bytes
from aiootp._typing import Typing as t
from aiootp._constants import INT_BYTES, BIG
from aiootp.commons import FrozenInstance
from aiootp.generics import acanonical_pack, canonical_pack
from aiootp.randoms.simple import acanonical_token, canonical_token



class ThreadingSafeEntropyPool(FrozenInstance):

    def __init__(self, data, *, obj, pool: t.Sequence[bytes]):
        self._pool = pool
        self._obj = obj(data)
        self._obj.update(token_bytes(3 * self._obj.block_size))

    @property
    def name(self):
        return self._obj.name

    @property
    def block_size(self):
        return self._obj.block_size

    @property
    def digest_size(self):
        return self._obj.digest_size

    @property
    def update(self):
        return self._obj.update

    @property
    def digest(self):
        return self._obj.digest

    @property
    def hexdigest(self):
        return self._obj.hexdigest

    def copy(self):
        new_self = self.__class__.__new__(self.__class__)
        new_self._obj = self._obj.copy()
        new_self._pool = self._pool.copy()
        return new_self

    def _make_token(self, *data):
        return canonical_pack(canonical_token(), self._pool[0], *data, blocksize=self.block_size, pad=b'6')

    async def _amake_token(self, *data):
        # the two variants are told apart by their padding byte
        return await acanonical_pack(await acanonical_token(), self._pool[0], *data, blocksize=self.block_size, pad=b'\\')

    def hash(self, *data, size: int):
        digest_size = size.to_bytes(INT_BYTES, BIG)
        token = self._make_token(digest_size, *data)
        self.update(token)
        entropy = self._obj.copy()
        entropy.update(token)
        return entropy.digest(size) if size else entropy.digest()
