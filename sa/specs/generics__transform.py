MODULE = "aiootp.generics.transform"

from aiootp._typing import Typing as t
from aiootp._constants import BIG, Tables
from aiootp._exceptions import Issue
from aiootp._gentools import abatch, batch
from aiootp.asynchs import asleep



def base_as_int(string: t.AnyStr, base: int | None=None, *, table: t.AnyStr=Tables.ASCII_95):
    if base is None:
        base = len(table)
    power = 1
    result = 0
    base_table = table[:base]
    for char in reversed(string):
        if char not in base_table:
            raise Issue.invalid_value('base with the given table')
        result += base_table.find(char) * power
        power = power * base
    return result


def int_as_base(number: int, base: int | None=None, *, table: t.AnyStr=Tables.ASCII_95):
    if not number:
        return table[:1]
    elif base is None:
        base = len(table)
    digits = []
    base_table = table[:base]
    while number:
        digits.append(base_table[number % base])
        number //= base
    digits.reverse()
    if base_table.__class__ is bytes:
        return bytes(digits)
    else:
        return ''.join(digits)


def xi_mix(bytes_hash, size: int=8):
    result = 0
    for chunk in batch(bytes_hash, size=size):
        result ^= int.from_bytes(chunk, BIG)
    return result.to_bytes(size, BIG)
