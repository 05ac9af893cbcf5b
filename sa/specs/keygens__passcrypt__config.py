MODULE = "aiootp.keygens.passcrypt.config"

from aiootp._typing import Typing as t
from aiootp._constants import INT_BYTES, BIG
from aiootp._constants import NANOSECONDS, SAFE_TIMESTAMP_BYTES, EPOCH_NS
from aiootp._exceptions import PasscryptIssue, Metadata
from aiootp.asynchs import Clock
from aiootp.commons import Config
from aiootp.generics import canonical_pack

CONFIG_ID = b'Passcrypt'
PASSCRYPT_PAD = b'\xf2'
MIN_PASSPHRASE_BYTES = 12


def _passcrypt_config_inputs(mapping: t.Mapping[t.Hashable, t.Any], **kw: t.Any):
    inputs = dict(CONFIG_ID=CONFIG_ID, PASSCRYPT_PAD=PASSCRYPT_PAD, MIN_CORES=1, MAX_CORES=256, DEFAULT_CORES=4, CORES_BYTES=1, MIN_CPU=1, MAX_CPU=256, DEFAULT_CPU=1, CPU_TO_DIGEST_PAIRS_PER_ROW_RATIO=2, CPU_BYTES=1, MIN_MB=1, MAX_MB=256 ** 3, DEFAULT_MB=64, MB_BYTES=3, MIN_SALT_SIZE=4, MAX_SALT_SIZE=256, DEFAULT_SCHEMA_SALT_SIZE=8, SALT_SIZE_BYTES=1, MIN_TAG_SIZE=16, MIN_PASSPHRASE_BYTES=MIN_PASSPHRASE_BYTES, TIME_UNIT=NANOSECONDS, TIMESTAMP_BYTES=SAFE_TIMESTAMP_BYTES, EPOCH_NS=EPOCH_NS)
    inputs.update(mapping, **kw)
    return inputs


class PasscryptConfig(Config):
    slots_types = dict(CONFIG_ID=t.Hashable, CORES_BYTES=int, CORES_RESOURCE_SAFETY_RANGE=range, CORES_SLICE=slice, CPU_BYTES=int, CPU_RESOURCE_SAFETY_RANGE=range, CPU_SLICE=slice, CPU_TO_DIGEST_PAIRS_PER_ROW_RATIO=int, DEFAULT_CORES=int, DEFAULT_CPU=int, DEFAULT_MB=int, DEFAULT_SCHEMA_SALT_SIZE=int, EPOCH_NS=int, HEADER_BYTES=int, HEADER_SLICE=slice, MAX_CORES=int, MAX_CPU=int, MAX_MB=int, MAX_SALT_SIZE=int, MB_BYTES=int, MB_RESOURCE_SAFETY_RANGE=range, MB_SLICE=slice, MIN_CORES=int, MIN_CPU=int, MIN_MB=int, MIN_PASSPHRASE_BYTES=int, MIN_SALT_SIZE=int, MIN_SCHEMA_BYTES=int, MIN_TAG_SIZE=int, PACKED_METADATA=bytes, PASSCRYPT_PAD=bytes, SALT_SIZE_BYTES=int, SALT_SIZE_SLICE=slice, TIME_UNIT=str, S_TO_TIME_UNIT_RATIO=float, TIMESTAMP_BYTES=int, TIMESTAMP_SLICE=slice, clock=t.ClockType)

    def __init__(self, *, CONFIG_ID: t.Hashable, MIN_PASSPHRASE_BYTES: int=MIN_PASSPHRASE_BYTES, TIME_UNIT=NANOSECONDS, TIMESTAMP_BYTES: int=SAFE_TIMESTAMP_BYTES, EPOCH_NS: int=EPOCH_NS, **kw: t.Any):
        inputs = _passcrypt_config_inputs(kw, CONFIG_ID=CONFIG_ID, MIN_PASSPHRASE_BYTES=MIN_PASSPHRASE_BYTES, TIME_UNIT=TIME_UNIT, TIMESTAMP_BYTES=TIMESTAMP_BYTES, EPOCH_NS=EPOCH_NS)
        self.update(inputs)
        self._initialize_dynamic_values()
        self._construct_metadata_constant()

    def _initialize_dynamic_values(self):
        self.HEADER_BYTES = self.TIMESTAMP_BYTES + self.MB_BYTES + self.CPU_BYTES + self.CORES_BYTES + self.SALT_SIZE_BYTES
        self.HEADER_SLICE = slice(0, self.HEADER_BYTES, 1)
        self.TIMESTAMP_SLICE = slice(0, self.TIMESTAMP_BYTES, 1)
        self.MB_SLICE = slice(self.TIMESTAMP_BYTES, self.TIMESTAMP_BYTES + self.MB_BYTES, 1)
        self.MB_RESOURCE_SAFETY_RANGE = range(self.MIN_MB, 512)
        self.CPU_SLICE = slice(self.TIMESTAMP_BYTES + self.MB_BYTES, self.TIMESTAMP_BYTES + self.MB_BYTES + self.CPU_BYTES, 1)
        self.CPU_RESOURCE_SAFETY_RANGE = range(self.MIN_CPU, 33)
        self.CORES_SLICE = slice(self.TIMESTAMP_BYTES + self.MB_BYTES + self.CPU_BYTES, self.TIMESTAMP_BYTES + self.MB_BYTES + self.CPU_BYTES + self.CORES_BYTES, 1)
        self.CORES_RESOURCE_SAFETY_RANGE = range(self.MIN_CORES, 9)
        self.SALT_SIZE_SLICE = slice(self.TIMESTAMP_BYTES + self.MB_BYTES + self.CPU_BYTES + self.CORES_BYTES, self.HEADER_BYTES, 1)
        self.MIN_SCHEMA_BYTES = self.HEADER_BYTES + self.MIN_SALT_SIZE + self.MIN_TAG_SIZE
        self.clock = Clock(self.TIME_UNIT, epoch=self.EPOCH_NS)
        self.S_TO_TIME_UNIT_RATIO = float(self.clock.unit.per_s)

    def _construct_metadata_constant(self):
        self.PACKED_METADATA = canonical_pack(self.CONFIG_ID, str(self.CORES_RESOURCE_SAFETY_RANGE).encode(), str(self.CORES_SLICE).encode(), str(self.CPU_RESOURCE_SAFETY_RANGE).encode(), str(self.CPU_SLICE).encode(), self.CPU_TO_DIGEST_PAIRS_PER_ROW_RATIO.to_bytes(INT_BYTES, BIG), self.DEFAULT_CORES.to_bytes(INT_BYTES, BIG), self.DEFAULT_CPU.to_bytes(INT_BYTES, BIG), self.DEFAULT_MB.to_bytes(INT_BYTES, BIG), self.DEFAULT_SCHEMA_SALT_SIZE.to_bytes(INT_BYTES, BIG), self.EPOCH_NS.to_bytes(16, BIG), str(self.HEADER_SLICE).encode(), self.MAX_CORES.to_bytes(INT_BYTES, BIG), self.MAX_CPU.to_bytes(INT_BYTES, BIG), self.MAX_MB.to_bytes(INT_BYTES, BIG), self.MAX_SALT_SIZE.to_bytes(INT_BYTES, BIG), self.MB_BYTES.to_bytes(INT_BYTES, BIG), str(self.MB_RESOURCE_SAFETY_RANGE).encode(), str(self.MB_SLICE).encode(), self.MIN_CORES.to_bytes(INT_BYTES, BIG), self.MIN_CPU.to_bytes(INT_BYTES, BIG), self.MIN_MB.to_bytes(INT_BYTES, BIG), self.MIN_PASSPHRASE_BYTES.to_bytes(INT_BYTES, BIG), self.MIN_SALT_SIZE.to_bytes(INT_BYTES, BIG), self.MIN_SCHEMA_BYTES.to_bytes(INT_BYTES, BIG), self.MIN_TAG_SIZE.to_bytes(INT_BYTES, BIG), self.PASSCRYPT_PAD, str(self.SALT_SIZE_SLICE).encode(), self.TIME_UNIT.encode(), str(self.TIMESTAMP_SLICE).encode(), int_bytes=1)

    def is_passphrase(self, passphrase):
        return passphrase.__class__ is bytes and len(passphrase) >= self.MIN_PASSPHRASE_BYTES

    def is_salt(self, salt):
        length_limits = range(self.MIN_SALT_SIZE, self.MAX_SALT_SIZE + 1)
        return salt.__class__ is bytes and len(salt) in length_limits

    def is_aad(self, aad):
        return aad.__class__ is bytes

    def is_mb(self, mb: int):
        mb_limits = range(self.MIN_MB, self.MAX_MB + 1)
        return mb.__class__ is int and mb in mb_limits

    def is_cpu(self, cpu: int):
        cpu_limits = range(self.MIN_CPU, self.MAX_CPU + 1)
        return cpu.__class__ is int and cpu in cpu_limits

    def is_cores(self, cores: int):
        cores_limits = range(self.MIN_CORES, self.MAX_CORES + 1)
        return cores.__class__ is int and cores in cores_limits

    def is_tag_size(self, tag_size: int):
        tag_size_is_int = tag_size.__class__ is int
        return tag_size_is_int and tag_size >= self.MIN_TAG_SIZE

    def is_salt_size(self, salt_size: int):
        salt_size_is_int = salt_size.__class__ is int
        salt_size_limits = range(self.MIN_SALT_SIZE, self.MAX_SALT_SIZE + 1)
        return salt_size_is_int and salt_size in salt_size_limits

    def validate_inputs(self, passphrase, salt, aad):
        if not self.is_passphrase(passphrase):
            raise PasscryptIssue.improper_passphrase(Metadata(passphrase))
        elif not self.is_salt(salt):
            raise PasscryptIssue.improper_salt(Metadata(salt))
        elif not self.is_aad(aad):
            raise PasscryptIssue.improper_aad()

    def validate_settings(self, mb: int, cpu: int, cores: int, tag_size: int, salt_size: int):
        if not self.is_mb(mb):
            raise PasscryptIssue.invalid_mb(mb)
        elif not self.is_cpu(cpu):
            raise PasscryptIssue.invalid_cpu(cpu)
        elif not self.is_cores(cores):
            raise PasscryptIssue.invalid_cores(cores)
        elif not self.is_tag_size(tag_size):
            raise PasscryptIssue.invalid_tag_size(tag_size)
        elif not self.is_salt_size(salt_size):
            raise PasscryptIssue.invalid_salt_size(salt_size)
passcrypt_spec = PasscryptConfig(CONFIG_ID=CONFIG_ID)
