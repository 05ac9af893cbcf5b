MODULE = "aiootp.databases.database_properties"
OPAQUE = ("bytes_encrypt", "bytes_decrypt", "json_encrypt", "json_decrypt", "make_token", "read_token",
          "sha3_256", "sha3_512", "shake_128", "shake_256", "DomainKDF", "DBKDF", "Chunky2048", "Slick256", "Passcrypt",
          "read_salt_file", "delete_salt_file", "SecureSaltPath", "Namespace", "_filename", "filename")

from aiootp._typing import Typing as t
from aiootp._constants import FILENAME_HASH_BYTES
from aiootp._exceptions import InvalidSHMAC, Ignore, TimestampExpired
from aiootp._paths import DatabasePath
from aiootp.generics import ByteIO
from aiootp.ciphers import Chunky2048, Slick256
from aiootp.databases.dbdomains import DBDomains
from aiootp.databases.dbkdf import DBKDF



class DatabaseProperties:
    IO = ByteIO
    InvalidSHMAC = InvalidSHMAC
    TimestampExpired = TimestampExpired
    _Cipher = Chunky2048
    _DBDomains = DBDomains
    _DBKDF = DBKDF
    _TokenCipher = Slick256
    _ROOT_SALT_BYTES = 24
    _ROOT_SALT_LEDGERNAME = '0'
    _METATAGS_LEDGERNAME = '1'
    _path = DatabasePath()

    @classmethod
    def _encode_filename(cls, value):
        return cls.IO.bytes_to_filename(value)

    @property
    def _root_filename(self):
        filename = self._root_kdf.shake_128(size=FILENAME_HASH_BYTES, aad=self._DBDomains.ROOT_FILENAME)
        return self._encode_filename(filename)

    @property
    def _root_path(self):
        return self.path / self._root_filename

    @property
    def _maintenance_records(self):
        return {self._ROOT_SALT_LEDGERNAME, self._METATAGS_LEDGERNAME}

    @property
    def tags(self):
        manifest = self._manifest
        admin_files = self._maintenance_records
        return {getattr(manifest, filename) for filename in admin_files.symmetric_difference(manifest)}

    @property
    def filenames(self):
        admin_files = self._maintenance_records
        return admin_files.symmetric_difference(self._manifest.__dict__)

    @property
    def metatags(self):
        return set(self._manifest[self._METATAGS_LEDGERNAME])

    def _filename(self, tag):
        filename = self._root_kdf.shake_128(self._root_salt, tag.encode(), aad=self._DBDomains.FILENAME, size=FILENAME_HASH_BYTES)
        return self._encode_filename(filename)

    def __contains__(self, tag):
        filename = self._filename(tag)
        return filename in self._manifest or filename in self._cache

    def __bool__(self):
        contains_tags = len(self)
        contains_metatags = self._manifest[self._METATAGS_LEDGERNAME]
        return bool(contains_tags or contains_metatags)

    def __len__(self):
        return len(self._manifest) - len(self._maintenance_records)

    def __setitem__(self, tag, data: t.JSONSerializable):
        filename = self._filename(tag)
        setattr(self._cache, filename, data)
        setattr(self._manifest, filename, tag)

    def __getitem__(self, tag):
        filename = self._filename(tag)
        if filename in self._cache:
            return getattr(self._cache, filename)

    def __delitem__(self, tag):
        filename = self._filename(tag)
        with Ignore(KeyError, AttributeError):
            del self._manifest[filename]
        with Ignore(KeyError, AttributeError):
            del self._cache[filename]
        with Ignore(FileNotFoundError):
            (self.path / filename).unlink()
