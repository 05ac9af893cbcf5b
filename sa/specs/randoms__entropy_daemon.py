MODULE = "aiootp.randoms.entropy_daemon"

from collections import deque
from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.asynchs import Threads, asleep, s_counter
from aiootp.randoms.simple import acanonical_token, arandom_sleep



class EntropyDaemon:

    def __init__(self, *, entropy_pool: deque[bytes], gadget: t.EntropyHashingType, max_delay: t.PositiveRealNumber=1):
        self._pool = entropy_pool
        self._gadget = gadget
        self._cache = deque(maxlen=2)
        self._cancel = False
        self._currently_mutating_frequency = False
        self.set_max_delay(max_delay)

    async def _new_snapshot(self):
        return await acanonical_token() + self._pool[0] + self._pool[-1]

    async def _acknowledge_temporary_frequency_deadline(self):
        await asleep()
        if not self._currently_mutating_frequency:
            return
        deadline_delta = self._frequency_mutation_deadline - s_counter()
        deadline_reached = deadline_delta <= 0
        delay_skips_deadline = self._max_delay - deadline_delta > 1
        if deadline_reached:
            self._max_delay = self._initial_max_delay
            self._currently_mutating_frequency = False
        elif delay_skips_deadline:
            self._max_delay = deadline_delta

    def set_temporary_max_delay(self, max_delay: t.PositiveRealNumber=0.001, *, duration: t.PositiveRealNumber=1):
        if max_delay > 0:
            self._frequency_mutation_deadline = s_counter() + duration
            self._max_delay = max_delay
            self._currently_mutating_frequency = True
            return self
        else:
            raise Issue.value_must('max_delay', 'be > 0')

    def set_max_delay(self, max_delay: t.PositiveRealNumber=1):
        if max_delay > 0:
            self._initial_max_delay = max_delay
            self._max_delay = max_delay
            return self
        else:
            raise Issue.value_must('max_delay', 'be > 0')

    async def _araw_loop(self):
        while True:
            self._cache.appendleft(await self._new_snapshot())
            entropy = await self._gadget.ahash(*self._cache, size=32)
            self._pool.appendleft(entropy)
            await self._acknowledge_temporary_frequency_deadline()
            await arandom_sleep(self._max_delay)
            if self._cancel:
                return

    def start(self):
        queue = Threads._get_queue()
        self._daemon = Threads._type(target=Threads._arun_func, args=(self._araw_loop, queue))
        self._daemon.daemon = True
        self._daemon.start()
        return self

    def cancel(self):
        self._cancel = True
        return self
