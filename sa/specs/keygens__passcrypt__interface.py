MODULE = "aiootp.keygens.passcrypt.interface"

import math
from hashlib import shake_128
from aiootp._typing import Typing as t
from aiootp._constants import DEFAULT_AAD, DEFAULT_TTL
from aiootp._exceptions import Issue, PasscryptIssue, TimestampExpired
from aiootp._exceptions import InvalidPassphrase, ImproperPassphrase
from aiootp.asynchs import Processes
from aiootp.commons import OpenFrozenSlots, FrozenInstance
from aiootp.generics import ahash_bytes, hash_bytes, bytes_are_equal
from aiootp.randoms import acsprng, csprng
from aiootp.keygens.passcrypt.config import passcrypt_spec
from aiootp.keygens.passcrypt.hash_format import PasscryptHash
from aiootp.keygens.passcrypt.sessions_manager import PasscryptProcesses



class PasscryptSettings(OpenFrozenSlots):

    def __init__(self, *, mb: int, cpu: int, cores: int, tag_size: int, salt_size: int, config: t.ConfigType=passcrypt_spec):
        self.mb = mb
        self.cpu = cpu
        self.cores = cores
        self.tag_size = tag_size
        self.salt_size = salt_size
        config.validate_settings(**self)


class Passcrypt(FrozenInstance):
    _PasscryptProcesses = PasscryptProcesses
    _PasscryptSettings = PasscryptSettings
    _PasscryptHash = PasscryptHash
    PEPPER = b''
    TimestampExpired = TimestampExpired
    InvalidPassphrase = InvalidPassphrase
    ImproperPassphrase = ImproperPassphrase

    def __init__(self, *, tag_size: int, mb: int=passcrypt_spec.DEFAULT_MB, cpu: int=passcrypt_spec.DEFAULT_CPU, cores: int=passcrypt_spec.DEFAULT_CORES, salt_size: int=passcrypt_spec.DEFAULT_SCHEMA_SALT_SIZE, config: t.ConfigType=passcrypt_spec):
        self._config = config
        self._settings = self._PasscryptSettings(mb=mb, cpu=cpu, cores=cores, tag_size=tag_size, salt_size=salt_size, config=config)

    def new(self, passphrase, salt, *, aad=DEFAULT_AAD):
        try:
            sessions = self._PasscryptProcesses().spawn(passphrase=passphrase, salt=salt, aad=aad, pepper=self.PEPPER, mb=self._settings.mb, cpu=self._settings.cpu, cores=self._settings.cores, tag_size=self._settings.tag_size, config=self._config)
            return hash_bytes(*[session.result() for session in sessions], size=self._settings.tag_size, hasher=shake_128, key=sessions[0].result())
        except Exception as error:
            if Processes.pool._broken:
                Processes.reset_pool()
                raise Issue.broken_pool_restarted() from error
            raise error

    def hash_passphrase(self, passphrase, *, aad=DEFAULT_AAD):
        timestamp = self._config.clock.make_timestamp(size=self._config.TIMESTAMP_BYTES)
        salt = csprng(self._settings.salt_size)
        tag = self.new(passphrase, salt, aad=timestamp + aad)
        return self._PasscryptHash(timestamp=timestamp, mb=self._settings.mb, cpu=self._settings.cpu, cores=self._settings.cores, salt=salt, tag=tag, config=self._config).export_hash()

    @classmethod
    def verify(cls, composed_passcrypt_hash, passphrase, *, aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL, mb_allowed: range=passcrypt_spec.MB_RESOURCE_SAFETY_RANGE, cpu_allowed: range=passcrypt_spec.CPU_RESOURCE_SAFETY_RANGE, cores_allowed: range=passcrypt_spec.CORES_RESOURCE_SAFETY_RANGE, config: t.ConfigType=passcrypt_spec):
        parts = cls._PasscryptHash(config=config).import_hash(composed_passcrypt_hash)
        ttl = ttl and math.floor(ttl * config.S_TO_TIME_UNIT_RATIO)
        config.clock.test_timestamp(parts.timestamp, ttl=ttl)
        parts.in_allowed_ranges(mb_allowed, cpu_allowed, cores_allowed)
        self = cls(mb=parts.mb, cpu=parts.cpu, cores=parts.cores, tag_size=parts.tag_size, config=config)
        untrusted_hash = self.new(passphrase, parts.salt, aad=parts.timestamp + aad)
        if not bytes_are_equal(untrusted_hash, parts.tag):
            raise PasscryptIssue.verification_failed()
