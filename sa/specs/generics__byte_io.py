MODULE = "aiootp.generics.byte_io"

import aiofiles
from math import ceil
from pathlib import Path
from base64 import urlsafe_b64encode, urlsafe_b64decode
from aiootp._typing import Typing as t
from aiootp._constants import Tables, BIG
from aiootp._constants.datasets import _WORD_LIST_256
from aiootp._constants.datasets import _WORD_LIST_256_INVERSE
from aiootp.commons import FrozenInstance
from aiootp.asynchs import asleep
from aiootp.generics.transform import abase_as_int, base_as_int, aint_as_base, int_as_base
from aiootp.generics.canon import fullblock_ljust



class ByteIO(FrozenInstance):

    @staticmethod
    def bytes_to_urlsafe(value):
        urlsafe_value = urlsafe_b64encode(value)
        return urlsafe_value.replace(b'=', b'')

    @staticmethod
    def urlsafe_to_bytes(value: t.AnyStr):
        if value.__class__ is str:
            value = value.encode()
        return urlsafe_b64decode(fullblock_ljust(value, 4, pad=b'='))

    @staticmethod
    def bytes_to_filename(value):
        return int_as_base(int.from_bytes(value, BIG), base=38, table=Tables.BASE_38)

    @staticmethod
    def filename_to_bytes(filename):
        result = base_as_int(filename, base=38, table=Tables.BASE_38)
        byte_count = ceil(result.bit_length() / 8)
        return result.to_bytes(byte_count, BIG)

    @staticmethod
    def _bytes_to_phrase(value):
        return b' '.join((_WORD_LIST_256[byte] for byte in value))

    @staticmethod
    def _phrase_to_bytes(phrase):
        return b''.join((_WORD_LIST_256_INVERSE[word] for word in phrase.strip().split(b' ')))

    @staticmethod
    def read(path: t.PathStr, size: int=-1):
        with Path(path).open('rb') as f:
            return f.read(size)

    @staticmethod
    def write(path: t.PathStr, data):
        with Path(path).open('wb+') as f:
            f.write(data)

    @staticmethod
    def append(path: t.PathStr, data):
        with Path(path).open('ab+') as f:
            f.write(data)
