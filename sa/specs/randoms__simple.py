MODULE = "aiootp.randoms.simple"

import random as _stdlib_random
from secrets import choice, token_bytes
from secrets import randbits as token_bits
from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp.asynchs import get_process_id, get_thread_id
from aiootp.asynchs import asleep, sleep, ns_counter

_random = _stdlib_random.Random(token_bytes(2500))
uniform = _random.uniform


async def auniform(a: t.RealNumber, b: t.RealNumber):
    await asleep()
    return uniform(a=a, b=b)


async def achoice(seq: t.Sequence[t.Any]):
    await asleep()
    return choice(seq=seq)


def random_sleep(seconds: t.PositiveRealNumber=1):
    sleep(seconds * uniform(0, 1))


async def atoken_bits(k: int):
    await asleep()
    return token_bits(k=k)


async def atoken_bytes(nbytes: int):
    await asleep()
    return token_bytes(nbytes=nbytes)


def canonical_token():
    return (token_bits(256) << 192 ^ ns_counter() << 128 ^ get_thread_id() << 64 ^ get_process_id()).to_bytes(56, BIG)
