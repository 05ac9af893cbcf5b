MODULE = "aiootp.asynchs.loops"

import asyncio
from time import sleep
from functools import wraps, partial
from asyncio import sleep as _asleep
from asyncio import run, set_event_loop
from aiootp._typing import Typing as t
from aiootp._debug_control import DebugControl

gather = asyncio.gather
get_event_loop = asyncio.get_event_loop
get_event_loop_id = lambda: id(get_event_loop())
new_event_loop = asyncio.new_event_loop
new_future = asyncio.ensure_future


async def asleep(seconds: t.PositiveRealNumber=0):
    await _asleep(seconds)


def new_task(coro: t.Awaitable):
    return get_event_loop().create_task(coro)


def wrap_in_executor(function: t.Callable[..., t.Any]):

    @wraps(function)
    async def runner(*args: t.Any, **kwargs: t.Any):
        partial_function = partial(function, *args, **kwargs)
        return await get_event_loop().run_in_executor(executor=None, func=partial_function)
    return runner


class AsyncInit(type):

    async def __call__(cls, *a: t.Any, **kw: t.Any):
        self = cls.__new__(cls, *a, **kw)
        await self.__init__(*a, **kw)
        return self


DebugControl._switches.append(lambda: get_event_loop().set_debug(DebugControl.is_debugging()))
