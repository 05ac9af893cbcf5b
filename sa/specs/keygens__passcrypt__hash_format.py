MODULE = "aiootp.keygens.passcrypt.hash_format"

from io import BytesIO
from aiootp._typing import Typing as t
from aiootp._constants import BIG, MB, CPU, CORES
from aiootp._exceptions import PasscryptIssue, raise_exception
from aiootp.commons import FrozenSlots, OpenFrozenSlots
from aiootp.keygens.passcrypt.config import passcrypt_spec



class PasscryptResources(OpenFrozenSlots):

    def __init__(self, mb: int, cpu: int, cores: int):
        self.mb = mb
        self.cpu = cpu
        self.cores = cores


class PasscryptHash(FrozenSlots):
    _UNMAPPED_ATTRIBUTES = frozenset({'config'})

    def __init__(self, *, timestamp: bytes | None=None, mb: int | None=None, cpu: int | None=None, cores: int | None=None, salt: bytes | None=None, tag: bytes | None=None, config=passcrypt_spec):
        if config is not None:
            self.config = config
        if any((timestamp, mb, cpu, cores, salt, tag)):
            self.config.validate_settings(mb=mb, cpu=cpu, cores=cores, tag_size=len(tag), salt_size=len(salt))
            self.timestamp = timestamp
            self.mb = mb
            self.cpu = cpu
            self.cores = cores
            self.salt = salt
            self.tag = tag

    @property
    def salt_size(self):
        salt = getattr(self, 'salt', None)
        return len(salt) if salt else None

    @property
    def tag_size(self):
        tag = getattr(self, 'tag', None)
        return len(tag) if tag else None

    def import_hash(self, passcrypt_hash):
        config = self.config
        to_int = int.from_bytes
        read = BytesIO(passcrypt_hash).read
        self.__init__(timestamp=read(config.TIMESTAMP_BYTES), mb=to_int(read(config.MB_BYTES), BIG) + 1, cpu=to_int(read(config.CPU_BYTES), BIG) + 1, cores=to_int(read(config.CORES_BYTES), BIG) + 1, salt=read(to_int(read(config.SALT_SIZE_BYTES), BIG) + 1), tag=read(), config=None)
        return self

    def export_hash(self):
        config = self.config
        passcrypt_hash = (self.timestamp, (self.mb - 1).to_bytes(config.MB_BYTES, BIG), (self.cpu - 1).to_bytes(config.CPU_BYTES, BIG), (self.cores - 1).to_bytes(config.CORES_BYTES, BIG), (self.salt_size - 1).to_bytes(config.SALT_SIZE_BYTES, BIG), self.salt, self.tag)
        return b''.join(passcrypt_hash)

    def in_allowed_ranges(self, mb_allowed: range, cpu_allowed: range, cores_allowed: range):
        proc = raise_exception
        exc = PasscryptIssue.untrusted_resource_consumption
        header = PasscryptResources(self.mb, self.cpu, self.cores)
        self.mb in mb_allowed or proc(exc(MB, header))
        self.cpu in cpu_allowed or proc(exc(CPU, header))
        self.cores in cores_allowed or proc(exc(CORES, header))
        return True
