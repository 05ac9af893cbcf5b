MODULE = "aiootp.asynchs.threads"

import queue
from threading import Thread
from concurrent.futures import thread
from _thread import get_ident as get_thread_id
from concurrent.futures import ThreadPoolExecutor
from aiootp._typing import Typing as t
from aiootp.asynchs.concurrency_interface import ConcurrencyInterface



class Threads(ConcurrencyInterface):
    _default_probe_delay = 0.001
    _type = Thread
    BrokenPool = thread.BrokenThreadPool
    get_id = get_thread_id
    pool = ThreadPoolExecutor()

    @classmethod
    def _get_queue(cls, /, maxsize: int=1):
        return queue.Queue(maxsize=maxsize)

    @classmethod
    def reset_pool(cls, /):
        cls.pool = cls.pool.__class__()
