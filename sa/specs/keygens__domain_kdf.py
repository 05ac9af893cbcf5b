MODULE = "aiootp.keygens.domain_kdf"

from hashlib import shake_128
from aiootp._typing import Typing as t
from aiootp._constants import HASHER_TYPES
from aiootp._exceptions import Issue
from aiootp.commons import FrozenInstance
from aiootp.generics import Domains, ahash_bytes, hash_bytes
from aiootp.generics import acanonical_pack, canonical_pack



class HashTupleKDF(FrozenInstance):

    def __init_subclass__(cls, *a: t.Any, salt_label: t.AnyStr, **kw: t.Any):
        super().__init_subclass__(*a, **kw)
        cls._TYPE_BLOCKSIZE: int = cls._type().block_size
        cls._new_payload: t.Callable[[], t.XOFType] = cls._type(Domains.encode_constant(salt_label, size=cls._TYPE_BLOCKSIZE)).copy

    def _initialize_payload(self, domain, data: t.Iterable[bytes], *, key):
        self._payload = self._new_payload()
        canonicalized_hash = hash_bytes(Domains.KDF, domain, *data, key=key + domain, size=self._payload.block_size, hasher=self._type)
        self._payload.update(canonicalized_hash)

    def _run_kdf(self, *data, size: int | None=None, aad, obj: t.SimpleNamespace):
        return hash_bytes(aad, *data, size=None if obj.digest_size else size, key=self._payload.digest(obj.block_size), hasher=obj.factory)


class DomainKDF(HashTupleKDF, salt_label=b'domain_kdf_salt'):
    _type = shake_128

    def __init__(self, domain, *data, key):
        self._initialize_payload(domain, data, key=key)

    def copy(self):
        kdf = self.__class__.__new__(self.__class__)
        kdf._payload = self._payload.copy()
        return kdf

    def update(self, *data):
        if not data:
            raise Issue.value_must('update data', 'not be empty')
        payload = self._payload
        payload.update(canonical_pack(*data, blocksize=payload.block_size))
        return self

    def sha3_256(self, *data, aad=b''):
        return self._run_kdf(*data, aad=aad, obj=HASHER_TYPES['sha3_256'])

    def sha3_512(self, *data, aad=b''):
        return self._run_kdf(*data, aad=aad, obj=HASHER_TYPES['sha3_512'])

    def shake_128(self, *data, size: int, aad=b''):
        return self._run_kdf(*data, size=size, aad=aad, obj=HASHER_TYPES['shake_128'])

    def shake_256(self, *data, size: int, aad=b''):
        return self._run_kdf(*data, size=size, aad=aad, obj=HASHER_TYPES['shake_256'])
