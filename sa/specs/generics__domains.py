MODULE = "aiootp.generics.domains"

from hashlib import shake_128
from aiootp._typing import Typing as t
from aiootp._constants import misc, DEFAULT_AAD
from aiootp.commons import FrozenInstance
from aiootp.generics.hashing import ahash_bytes, hash_bytes



class DomainEncoder(FrozenInstance):
    _DOMAIN = b'domain_constant_encoder'

    @classmethod
    def encode_constant(cls, constant: t.AnyStr, size: int=8, *, domain=b'', aad=DEFAULT_AAD, pad=b'\x00'):
        if constant.__class__ is not bytes:
            constant = constant.encode()
        return hash_bytes(cls._DOMAIN, domain, aad, constant, hasher=shake_128, size=size, pad=pad)


class Domains(DomainEncoder):
    pass
