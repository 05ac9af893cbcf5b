MODULE = "aiootp.randoms.rng"

import io
from collections import deque
from hashlib import shake_256
from aiootp._typing import Typing as t
from aiootp._constants import BIG, SHAKE_256_BLOCKSIZE
from aiootp._exceptions import Issue
from aiootp._paths import update_salt_file
from aiootp.asynchs import asleep, gather, new_event_loop
from aiootp.generics import acanonical_pack
from aiootp.randoms.simple import atoken_bits, token_bytes, arandom_sleep
from aiootp.randoms.simple import acanonical_token, canonical_token
from aiootp.randoms.threading_safe_entropy_pool import ThreadingSafeEntropyPool
from aiootp.randoms.entropy_daemon import EntropyDaemon
from aiootp.randoms._early_salts import _salt, _asalt, _asalt_multiply
from aiootp.randoms._early_salts import _package_seed, _package_seed_path

_pool = deque((token_bytes(32) for _ in range(32)), maxlen=32)
_gadget = ThreadingSafeEntropyPool(_package_seed + token_bytes(3 * SHAKE_256_BLOCKSIZE), obj=shake_256, pool=_pool)
_entropy_daemon = EntropyDaemon(gadget=_gadget, entropy_pool=_pool, max_delay=1).start()
_run = new_event_loop().run_until_complete


def csprng(size: int=64, *, entropy: t.Any=_gadget.hash(_salt(pool=_pool, gadget=_gadget).to_bytes(32, BIG), size=16)):
    if entropy.__class__ is bytes:
        token = canonical_token() + entropy
    else:
        token = canonical_token() + repr(entropy).encode()
    _gadget.update(token)
    thread_safe_entropy = _gadget._obj.copy()
    thread_safe_entropy.update(token + _pool[0])
    return thread_safe_entropy.digest(size)


def random_number_generator(size: int=64, *, entropy: t.Any=csprng(32), freshness: int=8):
    rng = arandom_number_generator(size, entropy=entropy, freshness=freshness)
    return _run(rng)


async def arandom_number_generator(size: int=64, *, entropy: t.Any=csprng(32), freshness: int=8):
    _entropy_daemon.set_temporary_max_delay(0.001, duration=1)
    if freshness < 0 or freshness.__class__ is not int:
        raise ValueError
    if not freshness:
        _pool.appendleft(await acsprng(32, entropy=entropy))
    else:

        async def create_unique_multiple(seed):
            return await _asalt_multiply(size, seed, await atoken_bits(256), pool=_pool)

        async def modular_multiplication():
            seed = await _asalt(pool=_pool, gadget=_gadget)
            await arandom_sleep(0.003)
            multiples = [await create_unique_multiple(seed) for _ in range(3)]
            element = await _asalt_multiply(seed, *multiples, pool=_pool)
            result = seed.to_bytes(32, BIG) + element.to_bytes(32, BIG)
            _pool.appendleft(await acsprng(32, entropy=result))

        async def add_to_pool():
            seed = await acsprng(32, entropy=entropy)
            await arandom_sleep(0.003)
            _pool.appendleft(await acsprng(32, entropy=seed))

        async def start_generator():
            tasks = deque()
            for _ in range(freshness):
                await asleep()
                tasks.appendleft(modular_multiplication())
                for _ in range(10):
                    tasks.appendleft(add_to_pool())
            reader = io.BytesIO(await acsprng(16 * len(tasks))).read
            await gather(*sorted(tasks, key=lambda _: reader(16)))

        entropy = await acsprng(16, entropy=entropy)
        await start_generator()
    return await acsprng(size, entropy=await acanonical_pack(*_pool))


_entropy_daemon.set_temporary_max_delay(max_delay=0.001, duration=2)
update_salt_file(path=_package_seed_path, salt=_run(arandom_number_generator(32, freshness=1)))
