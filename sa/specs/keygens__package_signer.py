MODULE = "aiootp.keygens.package_signer"

import json
from hashlib import sha384
from aiootp._typing import Typing as t
from aiootp._constants import DAYS
from aiootp._constants import CHECKSUM, CHECKSUMS, PUBLIC_CREDENTIALS
from aiootp._constants import SCOPE, SIGNATURE, SIGNING_KEY, VERSIONS
from aiootp._exceptions import PackageSignerIssue
from aiootp.asynchs import Clock
from aiootp.generics import Domains, canonical_pack
from aiootp.databases import Database
from aiootp.keygens.curve_25519 import Ed25519



class PackageSignerScope(t.OpenNamespace):

    def __init__(self, *, package, version, date: int, **extras: dict[str, t.JSONSerializable]):
        self.update(extras)
        self.package = package
        self.version = version
        self.date = date


class PackageSigner:
    _Database = Database
    _Hasher = sha384
    _Signer = Ed25519
    _CHECKSUM = CHECKSUM
    _CHECKSUMS = CHECKSUMS
    _CLASS = 'PackageSigner'
    _PUBLIC_CREDENTIALS = PUBLIC_CREDENTIALS
    _SCOPE = SCOPE
    _SIGNATURE = SIGNATURE
    _SIGNING_KEY = SIGNING_KEY
    _VERSIONS = VERSIONS
    _clock = Clock(DAYS, epoch=0)
    InvalidSignature = PackageSignerIssue.InvalidSignature

    @classmethod
    def _database_template(cls):
        return {cls._SIGNING_KEY: '', cls._VERSIONS: {}, cls._PUBLIC_CREDENTIALS: {}}

    @classmethod
    def generate_signing_key(cls):
        return cls._Signer().generate()

    def __init__(self, package, version, date: int | None=None, **scopes: t.JSONSerializable):
        self.files = PackageSignerFiles()
        self._scope = PackageSignerScope(package=package, version=version, date=date or self._clock.time(), **scopes)

    def __repr__(self):
        cls = self.__class__.__qualname__
        return str(f'{cls}({self._scope})')

    @property
    def _public_credentials(self):
        return self.db[self._scope.package][self._PUBLIC_CREDENTIALS]

    @property
    def signing_key(self):
        package = self._scope.package
        aad = canonical_pack(Domains.PACKAGE_SIGNER, package.encode())
        try:
            encrypted_key = self.db[package][self._SIGNING_KEY]
            if not encrypted_key:
                raise KeyError
        except KeyError as error:
            raise PackageSignerIssue.SigningKeyNotSet from error
        key = self.db.read_token(encrypted_key, aad=aad)
        return self._Signer().import_secret_key(key)

    @property
    def db(self):
        try:
            return self._db
        except AttributeError:
            raise PackageSignerIssue.DatabaseNotConnected from None

    @property
    def _checksums(self):
        return dict(sorted(self.files.items()))

    @property
    def _summary(self):
        return {self._CHECKSUMS: dict(self._checksums.items()), self._PUBLIC_CREDENTIALS: dict(sorted(self._public_credentials.items())), self._SCOPE: dict(sorted(self._scope.items())), self._SIGNING_KEY: self.signing_key.public_bytes.hex()}

    @property
    def _checksum(self):
        return self._Hasher(json.dumps(self._summary).encode()).digest()

    @property
    def _signature(self):
        try:
            versions = self.db[self._scope.package][self._VERSIONS]
            return bytes.fromhex(versions[self._scope.version])
        except KeyError as error:
            raise PackageSignerIssue.PackageNotSigned from error

    def connect_to_secure_database(self, *secret_credentials, username, passphrase, salt=b'', path=None, **passcrypt_settings):
        self._db = self._Database.generate_profile(self._CLASS.encode(), *secret_credentials, username=username, passphrase=passphrase, salt=salt, path=path, **passcrypt_settings)
        try:
            self.db.query_tag(self._scope.package, cache=True)
        except LookupError:
            self.db[self._scope.package] = self._database_template()
        return self

    def update_scope(self, **scopes: t.JSONSerializable):
        self._scope.update(scopes)
        return self

    def update_public_credentials(self, **credentials: t.JSONSerializable):
        package = self._scope.package
        self.db[package][self._PUBLIC_CREDENTIALS].update(credentials)
        return self

    def update_signing_key(self, signing_key):
        if signing_key.__class__ is not self._Signer:
            signing_key = self._Signer().import_secret_key(signing_key)
        package = self._scope.package
        aad = canonical_pack(Domains.PACKAGE_SIGNER, package.encode())
        token = self.db.make_token(signing_key.secret_bytes, aad=aad)
        self.db[package][self._SIGNING_KEY] = token.decode()
        return self

    def add_file(self, filename, file_data):
        self.files[filename] = self._Hasher(file_data).hexdigest()
        return self

    def sign_package(self):
        checksum = self._checksum
        version = self._scope.version
        signature = self.signing_key.sign(checksum).hex()
        payload = {version: signature}
        with self.db as db:
            db[self._scope.package][self._VERSIONS].update(payload)
        return self

    def summarize(self):
        checksum = self._checksum
        signature = self._signature
        signing_key = self.signing_key
        try:
            signing_key.verify(signature, checksum)
        except self.InvalidSignature as error:
            raise PackageSignerIssue.unsynced_package_signature() from error
        return {self._CHECKSUM: checksum.hex(), **self._summary, self._SIGNATURE: signature.hex()}


class PackageSignerFiles(t.OpenNamespace):
    pass
