MODULE = "aiootp.generics.canon"

import io
from math import ceil
from collections import deque
from hmac import compare_digest as bytes_are_equal
from aiootp._typing import Typing as t
from aiootp._constants import LITTLE, BIG, INT_BYTES
from aiootp._exceptions import Issue, CanonicalIssue
from aiootp._gentools import arange
from aiootp.asynchs import asleep



async def abytes_are_equal(value_0, value_1):
    await asleep()
    return bytes_are_equal(value_0, value_1)


def fullblock_ljust(data, blocksize: int, *, pad=b'\x00'):
    return data.ljust(blocksize * ceil(len(data) / blocksize), pad)


def encode_key(key, blocksize: int, *, pad=b'\x00'):
    if not key:
        raise Issue.value_must('key', 'be supplied for encoding')
    key_length = len(key).to_bytes(8, LITTLE)
    bsize = blocksize.to_bytes(8, LITTLE)
    return fullblock_ljust(b''.join((key, key_length, bsize, pad)), blocksize, pad=pad)


def encode_items(*items, int_bytes: int=INT_BYTES):
    yield int_bytes.to_bytes(1, BIG)
    yield len(items).to_bytes(int_bytes, BIG)
    for item in items:
        yield (len(item).to_bytes(int_bytes, BIG) + item)


def canonical_pack(*items, blocksize: int=1, pad=b'\x00', int_bytes: int=INT_BYTES):
    blocksize_blob = blocksize.to_bytes(int_bytes, BIG)
    items = encode_items(blocksize_blob, pad, *items, int_bytes=int_bytes)
    return fullblock_ljust(b''.join(items), blocksize, pad=pad)


def decode_items(read: t.Callable[[int], bytes], item_count: int, int_bytes: int):
    for _ in range(item_count):
        item_size = int.from_bytes(read(int_bytes), BIG)
        item = read(item_size)
        if len(item) != item_size:
            raise CanonicalIssue.item_length_mismatch()
        yield item


def test_canonical_padding(read: t.Callable[[int], bytes], items: deque[bytes], total_size: int):
    try:
        blocksize = int.from_bytes(items.popleft(), BIG)
        pad = items.popleft()
    except IndexError as error:
        raise CanonicalIssue.missing_metadata_items() from error
    if total_size % blocksize:
        raise CanonicalIssue.data_length_blocksize_mismatch()
    elif len(pad) != 1 or not set(pad).issuperset(read()):
        raise CanonicalIssue.invalid_padding()


def test_canonical_size(items: deque[bytes], int_bytes: int, total_size: int):
    if not items:
        raise CanonicalIssue.missing_metadata_items()
    elif len(items[0]) != int_bytes:
        raise CanonicalIssue.item_length_mismatch()
    declared_size = 1 + int_bytes + sum((int_bytes + len(i) for i in items))
    if not 0 <= total_size - declared_size < int.from_bytes(items[0], BIG):
        raise CanonicalIssue.invalid_padding()


def canonical_unpack(items):
    total_size = len(items)
    read = io.BytesIO(items).read
    int_bytes = int.from_bytes(read(1), BIG)
    item_count = int.from_bytes(read(int_bytes), BIG)
    if total_size < int_bytes * (item_count + 1) + 3:
        raise CanonicalIssue.inflated_size_declaration()
    items = deque(decode_items(read, item_count, int_bytes), maxlen=item_count)
    test_canonical_size(items, int_bytes, total_size)
    test_canonical_padding(read, items, total_size)
    return items
