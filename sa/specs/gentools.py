MODULE = "aiootp._gentools"

import io
import asyncio
from types import GeneratorType
from types import AsyncGeneratorType
from collections.abc import Iterable, Iterator
from collections.abc import AsyncIterable, AsyncIterator
from inspect import isasyncgenfunction as is_async_gen_function
from inspect import isgeneratorfunction as is_generator_function
from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._exceptions import Issue, raise_exception



def is_async_iterable(obj: t.Any, /):
    return isinstance(obj, AsyncIterable)


def is_iterable(obj: t.Any, /):
    return isinstance(obj, Iterable)


def is_async_iterator(obj: t.Any, /):
    return isinstance(obj, AsyncIterator)


def is_iterator(obj: t.Any, /):
    return isinstance(obj, Iterator)


def is_async_generator(obj: t.Any, /):
    return isinstance(obj, AsyncGeneratorType)


def is_generator(obj: t.Any, /):
    return isinstance(obj, GeneratorType)


def batch(sequence, /, *, size: int, buffer_type: type=io.BytesIO):
    try:
        read = buffer_type(sequence).read
        while True:
            yield (read(size) or raise_exception(StopIteration))
    except StopIteration:
        pass


def resize(sequence: t.Sequence[t.Any], /, size: int, *, blocks: int | None=None):
    if size < 1:
        raise Issue.value_must('size', 'be >0')
    elif blocks is not None and blocks < 1:
        raise Issue.value_must('blocks', 'be `None` or >0')
    length = len(sequence)
    if blocks is None or blocks * size >= length:
        blocks = length + size
    else:
        blocks = blocks * size + 1
    for previous_end, end in zip(range(0, blocks, size), range(size, blocks, size)):
        yield sequence[previous_end:end]


def unpack(iterable: t.Iterable[t.Any], /):
    yield from iterable


async def azip(*iterables: t.AsyncOrSyncIterable[t.Any]):
    coroutines = [aunpack(iterable).__anext__ for iterable in iterables]
    try:
        while True:
            yield [await coroutine() for coroutine in coroutines]
    except (StopAsyncIteration, StopIteration):
        pass


def cycle(iterable: t.Iterable[t.Any], /):
    results = []
    for result in iterable:
        yield result
        results.append(result)
    while results:
        for result in results:
            yield result


def bytes_count(*, start: int=0, size: int=8, byte_order=BIG):
    index = start
    while True:
        yield index.to_bytes(size, byte_order)
        index += 1


def count(*, start: int=0):
    if start.__class__ is not int:
        raise Issue.must_be_type('start', int)
    index = start
    while True:
        yield index
        index += 1


def bytes_range(*a: int, size: int=8, byte_order=BIG):
    for result in range(*a):
        yield result.to_bytes(size, byte_order)


async def arange(*a: int | None):
    for result in range(*a):
        await asyncio.sleep(0)
        yield result


def collate(*iterables: t.Iterable[t.Any]):
    for iterable in iterables:
        yield from iterable


def popleft(queue: t.SupportsPopleft, /):
    try:
        while True:
            yield queue.popleft()
    except IndexError:
        pass
