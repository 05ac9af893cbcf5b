MODULE = "aiootp.databases.profile_tokens"
OPAQUE = ("bytes_encrypt", "bytes_decrypt", "json_encrypt", "json_decrypt", "make_token", "read_token",
          "sha3_256", "sha3_512", "shake_128", "shake_256", "DomainKDF", "DBKDF", "Chunky2048", "Slick256", "Passcrypt",
          "read_salt_file", "delete_salt_file", "SecureSaltPath", "Namespace")

from hashlib import sha3_512
from aiootp._typing import Typing as t
from aiootp._constants import MIN_KEY_BYTES
from aiootp._paths import AsyncSecureSaltPath, SecureSaltPath
from aiootp._paths import aread_salt_file, read_salt_file
from aiootp.asynchs import asleep
from aiootp.commons import FrozenTypedSlots
from aiootp.generics import ahash_bytes, hash_bytes
from aiootp.keygens import Passcrypt
from aiootp.databases.dbdomains import DBDomains



class ProfileTokens(FrozenTypedSlots):
    slots_types = dict(_gist=bytes, _salt=bytes, _salt_path=t.Path, login_key=bytes, profile=t.DatabaseType)

    def __init__(self):
        pass

    @classmethod
    def _summon_device_salt(cls, path: t.PathStr):
        key = DBDomains.DEVICE_SALT
        salt_path = SecureSaltPath(path, key=key, _admin=True)
        return read_salt_file(salt_path)

    def _summon_profile_salt(self, path: t.PathStr):
        salt_path = SecureSaltPath(path, key=self._gist)
        salt = read_salt_file(salt_path)
        return (salt_path, salt)

    def _generate_profile_login_key(self, passphrase, **passcrypt_settings):
        pcrypt = Passcrypt(tag_size=MIN_KEY_BYTES, **passcrypt_settings)
        return pcrypt.new(passphrase=hash_bytes(DBDomains.TMP_PREKEY, self._salt, self._gist, key=passphrase, hasher=sha3_512), salt=self._salt, aad=DBDomains.PROFILE_LOGIN_KEY)

    def generate(self, *credentials, username, passphrase, salt, aad, path: t.PathStr, **passcrypt_settings):
        device_salt = self._summon_device_salt(path=path)
        self._gist = hash_bytes(DBDomains.GIST, device_salt, salt, aad, username, *credentials, key=device_salt, hasher=sha3_512)
        self._salt_path, self._salt = self._summon_profile_salt(path=path)
        self.login_key = self._generate_profile_login_key(passphrase, **passcrypt_settings)
        return self

    def cleanup(self):
        object.__delattr__(self, '_gist')
        object.__delattr__(self, '_salt')
        object.__delattr__(self, 'login_key')
        return self


class AsyncProfileTokens(FrozenTypedSlots):
    slots_types = dict(_gist=bytes, _salt=bytes, _salt_path=t.Path, login_key=bytes, profile=t.AsyncDatabaseType)
