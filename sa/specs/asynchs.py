MODULE = "aiootp.asynchs"

import asyncio
import aiofiles
from asyncio import run
from inspect import isawaitable as is_awaitable
from inspect import iscoroutinefunction as is_async_function
from aiootp.asynchs.loops import *
from aiootp.asynchs.clocks import *
from aiootp.asynchs.aos import *
from aiootp.asynchs.guards import *
from aiootp.asynchs.concurrency_interface import *
from aiootp.asynchs.processes import *
from aiootp.asynchs.threads import *

subpackages = dict(guards=guards)
