MODULE = "aiootp.generics.hashing"

from hashlib import sha3_512
from aiootp._typing import Typing as t
from aiootp._constants import INT_BYTES, BIG
from aiootp.generics.canon import aencode_key, encode_key
from aiootp.generics.canon import acanonical_pack, canonical_pack



def hash_bytes(*collection, hasher: t.Callable[[bytes], t.HasherType]=sha3_512, pad=b'\x00', size: int | None=None, key: bytes | None=None):
    obj = hasher()
    if key is not None:
        obj.update(encode_key(key, obj.block_size, pad=pad))
    canonicalized_data = canonical_pack((size or obj.digest_size).to_bytes(INT_BYTES, BIG), *collection, blocksize=obj.block_size, pad=pad)
    obj.update(canonicalized_data)
    if size:
        return obj.digest(size)
    return obj.digest()
