MODULE = "aiootp.asynchs.concurrency_interface"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.asynchs import is_async_function
from aiootp.asynchs.loops import asleep, sleep, new_event_loop



def process_probe_delay(value, /, *, default: float):
    if value is None:
        return default
    elif value > 0:
        return float(value)
    else:
        raise Issue.value_must('probe_delay', 'be > 0')


class ConcurrencyInterface:

    @classmethod
    async def aget_id(cls, /):
        await asleep()
        return cls.get_id()

    @staticmethod
    def _run_func(func: t.Callable[..., t.Any], queue: t.QueueType, /, *args: t.Any, **kwargs: t.Any):
        result = error = None
        try:
            result = func(*args, **kwargs)
        except Exception as exception:
            error = exception
        queue.put_nowait((result, error))

    @classmethod
    def new(cls, func: t.Callable[..., t.Any], /, *args: t.Any, probe_delay=None, **kwargs: t.Any):
        delay = process_probe_delay(probe_delay, default=cls._default_probe_delay)
        queue = cls._get_queue()
        task = cls._type(target=cls._run_func, args=(func, queue, *args), kwargs=kwargs)
        task.start()
        while task.is_alive() and queue.empty():
            sleep(delay)
        result, error = queue.get_nowait()
        while task.is_alive():
            sleep(delay)
        task.join()
        if error is not None:
            raise error
        return result

    @staticmethod
    def _get_result(func: t.Callable[..., t.Any], /, *args: t.Any, **kwargs: t.Any):
        if is_async_function(func):
            try:
                loop = new_event_loop()
                run = loop.run_until_complete
                return run(func(*args, **kwargs))
            finally:
                run(loop.shutdown_asyncgens())
                loop.close()
        else:
            return func(*args, **kwargs)

    @staticmethod
    def _package_result_methods(future: t.Future, /, *, probe_delay: float):

        async def aresult():
            while not future.done():
                await asleep(probe_delay)
            return future._original_result()

        def result():
            while not future.done():
                sleep(probe_delay)
            return future._original_result()
        future._original_result = future.result
        future.aresult = aresult
        future.result = result
        return future

    @classmethod
    def submit(cls, func: t.Callable[..., t.Any], /, *args: t.Any, probe_delay=None, **kwargs: t.Any):
        delay = process_probe_delay(probe_delay, default=cls._default_probe_delay)
        future = cls.pool.submit(func, *args, **kwargs)
        return cls._package_result_methods(future, probe_delay=delay)

    @classmethod
    async def asubmit(cls, func: t.Callable[..., t.Any], /, *args: t.Any, probe_delay=None, **kwargs: t.Any):
        delay = process_probe_delay(probe_delay, default=cls._default_probe_delay)
        future = cls.pool.submit(cls._get_result, func, *args, **kwargs)
        return cls._package_result_methods(future, probe_delay=delay)

    @classmethod
    def gather(cls, /, *functions: t.Callable[..., t.Any], args: t.Iterable[t.Any]=(), kwargs: t.Mapping[str, t.Any]={}):
        tasks = [cls.submit(func, *args, **kwargs) for func in functions]
        try:
            return [task.result() for task in tasks]
        finally:
            for task in tasks:
                task.cancel()
