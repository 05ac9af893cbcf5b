MODULE = "aiootp._paths"
OPAQUE = ("make_salt_file",)

import aiofiles
from pathlib import Path
from hashlib import sha3_256, shake_128
from secrets import token_bytes
from aiootp._typing import Typing as t
from aiootp._constants import FILENAME_HASH_SLICE
from aiootp._exceptions import Ignore, Issue
from aiootp.asynchs import aos, wrap_in_executor, MultiConcurrencyGaurd
from aiootp.generics import Domains, ahash_bytes, hash_bytes
from aiootp.generics.transform import axi_mix, xi_mix

guards = MultiConcurrencyGaurd()


def RootPath():
    return Path(__file__).absolute().parent


def DatabasePath():
    return RootPath() / 'db'


def SecurePath(path=None):
    path = Path(path).absolute() if path else DatabasePath()
    return path / 'secure'


def AdminPath(path=None):
    return SecurePath(path) / '_admin'


def filename_to_index_key(filename, *aad, size: int=32, key: bytes | None=None):
    return hash_bytes(Domains.FILENAME_TO_INDEX, filename.encode(), *aad, hasher=shake_128, size=size, key=key)


def deniable_filename(key, *, size: int=8):
    if not 16 >= size >= 1:
        raise Issue.value_must('size', 'be <= 16 and > 0')
    elif not len(key) >= 2 * size:
        raise Issue.value_must('size', 'be at least 2x key length')
    filename = sha3_256(xi_mix(key, size=size)).digest()
    return t.ByteIO.bytes_to_filename(filename[FILENAME_HASH_SLICE])


def find_salt_file(path: Path, *, key, size: int=8):
    return path.absolute() / deniable_filename(key, size=size)


def make_salt_file(path: Path, *, salt=b''):
    salt = salt or token_bytes(32)
    if len(salt) < 32:
        raise Issue.value_must('salt', 'be >= 32-bytes')
    target = filename_to_index_key(str(path.absolute()))
    with guards.guard(target):
        path = Path(path)
        with path.open('xb') as salt_file:
            salt_file.write(salt)
        path.chmod(0)


def read_salt_file(path: Path):
    target = filename_to_index_key(str(path.absolute()))
    with guards.monitor(target):
        try:
            path = Path(path)
            path.chmod(384)
            salt = path.read_bytes()
            if len(salt) >= 32:
                return salt
            else:
                raise Issue.value_must('salt', 'be >= 32-bytes')
        finally:
            path.chmod(0)


def update_salt_file(path: Path, *, salt):
    if len(salt) < 32:
        raise Issue.value_must('salt', 'be >= 32-bytes')
    target = filename_to_index_key(str(path.absolute()))
    with guards.guard(target):
        try:
            path = Path(path)
            path.chmod(384)
            path.write_bytes(salt)
        finally:
            path.chmod(0)


def delete_salt_file(path: Path):
    target = filename_to_index_key(str(path.absolute()))
    with guards.guard(target):
        path = Path(path)
        path.chmod(384)
        path.unlink(path)


def SecureSaltPath(path=None, *, key, _admin=False):
    secure_path = SecurePath(path)
    secure_path.is_dir() or secure_path.mkdir()
    if _admin:
        admin_path = AdminPath(path)
        admin_path.is_dir() or admin_path.mkdir()
        salt_path = find_salt_file(admin_path, key=key)
    else:
        salt_path = find_salt_file(secure_path, key=key)
    with Ignore(FileExistsError):
        salt_path.is_file() or make_salt_file(salt_path)
    return salt_path
