MODULE = "aiootp.asynchs.processes"

import multiprocessing
from multiprocessing.context import SpawnContext
from os import getpid as get_process_id
from concurrent.futures import process
from concurrent.futures import ProcessPoolExecutor
from aiootp._typing import Typing as t
from aiootp.asynchs.concurrency_interface import ConcurrencyInterface



class Processes(ConcurrencyInterface):
    _default_probe_delay = 0.005
    _context = multiprocessing.get_context('spawn')
    _type = _context.Process
    BrokenPool = process.BrokenProcessPool
    get_id = get_process_id
    pool = ProcessPoolExecutor(mp_context=_context)

    @classmethod
    def _get_queue(cls, /, maxsize: int=1):
        return cls._context.Queue(maxsize=maxsize)

    @classmethod
    def reset_pool(cls, /):
        cls.pool = cls.pool.__class__(mp_context=cls._context)
