MODULE = "aiootp.randoms._early_salts"

from collections import deque
from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._paths import SecureSaltPath, read_salt_file
from aiootp.asynchs import asleep, ns_counter
from aiootp.generics import Domains
from aiootp.randoms.simple import token_bits, token_bytes

_int_pool = deque((token_bits(256), token_bits(256)), maxlen=2)
_package_seed_name = Domains.encode_constant(b'package_seed', size=16)
_package_seed_path = SecureSaltPath(key=_package_seed_name, _admin=True)
_package_seed = read_salt_file(_package_seed_path)
_MOD = 1 << 256
_offset = 153 << 256 | token_bits(256)
_mix = int.from_bytes(_package_seed, BIG)
_seed = int.from_bytes(token_bytes(32), BIG)


def _salt_multiply(*numbers: int, pool: t.Sequence[bytes]):
    global _mix, _seed, _offset
    start = ns_counter() * _offset
    mix = _mix ^ abs(sum((start, *_int_pool, *numbers)))
    mix = _mix = (mix ^ int.from_bytes(pool[0], BIG)) % _MOD
    _seed ^= mix
    _offset ^= _seed
    for number in numbers:
        mix += _offset
        start = (start ^ mix) * (number ^ mix)
    return _seed ^ (start ^ mix) % _MOD


def _salt(*, pool: t.Sequence[bytes], gadget: t.EntropyHashingType):
    entropy = gadget.hash(size=32)
    _int_pool.appendleft(int.from_bytes(entropy, BIG))
    return _salt_multiply(*_int_pool, pool=pool)
