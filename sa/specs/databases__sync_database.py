MODULE = "aiootp.databases.sync_database"
OPAQUE = ("bytes_encrypt", "bytes_decrypt", "json_encrypt", "json_decrypt", "make_token", "read_token",
          "sha3_256", "sha3_512", "shake_128", "shake_256", "DomainKDF", "DBKDF", "Chunky2048", "Slick256", "Passcrypt",
          "read_salt_file", "delete_salt_file", "SecureSaltPath", "Namespace",
          "Database", "query_tag", "save_tag", "save_database", "metatag", "delete_database", "load_database", "load_tags",
          "load_metatags", "clear_cache", "filename", "_filename", "generate")

import json
from aiootp._typing import Typing as t
from aiootp._constants import DEFAULT_AAD, DEFAULT_TTL, MIN_KEY_BYTES
from aiootp._constants import BYTES_FLAG, BYTES_FLAG_SIZE
from aiootp._constants import FILENAME_HASH_BYTES, SHAKE_128_BLOCKSIZE
from aiootp._exceptions import DatabaseIssue, Issue, Ignore
from aiootp._paths import delete_salt_file
from aiootp.commons import Namespace
from aiootp.randoms import token_bytes
from aiootp.keygens.passcrypt.config import passcrypt_spec
from aiootp.databases.profile_tokens import ProfileTokens
from aiootp.databases.database_properties import DatabaseProperties



class Database(DatabaseProperties):
    _ProfileTokens = ProfileTokens

    @classmethod
    def generate_profile(cls, *credentials, username, passphrase, salt=b'', aad=DEFAULT_AAD, mb: int=passcrypt_spec.DEFAULT_MB, cpu: int=passcrypt_spec.DEFAULT_CPU, cores: int=passcrypt_spec.DEFAULT_CORES, path=None, preload=False):
        tokens = ProfileTokens().generate(*credentials, username=username, passphrase=passphrase, salt=salt, aad=aad, mb=mb, cpu=cpu, cores=cores, path=path)
        profile_db = cls(key=tokens.login_key, path=path, preload=preload)
        if not profile_db._root_path.is_file():
            profile_db.save_database()
        profile_db._profile_tokens = tokens.cleanup()
        return profile_db

    def __init__(self, key, *, preload=False, path=None, metatag=False, silent=True):
        self._silent = silent
        self._cache = Namespace()
        self._manifest = Namespace()
        self.path = self._format_path(path)
        self._is_metatag = bool(metatag)
        self._initialize_keys(key)
        self._load_manifest()
        self.load_database(silent=silent, preload=preload)

    @classmethod
    def _format_path(cls, path: t.PathStr):
        if path is None:
            return t.Path(cls._path).absolute()
        return t.Path(path).absolute()

    def _initialize_keys(self, key):
        self._root_kdf = self._DBKDF(self._DBDomains.ROOT_KDF, key=key)

    def _open_manifest(self):
        ciphertext = self.IO.read(path=self._root_path)
        key = self._root_kdf.shake_128(aad=self._DBDomains.MANIFEST, size=SHAKE_128_BLOCKSIZE)
        return self._Cipher(key).json_decrypt(ciphertext)

    def _load_root_salt(self):
        return self.IO.urlsafe_to_bytes(self._manifest[self._ROOT_SALT_LEDGERNAME])

    def _generate_root_salt(self):
        return token_bytes(self._ROOT_SALT_BYTES)

    def _install_root_salt(self, salt):
        self._manifest[self._ROOT_SALT_LEDGERNAME] = self.IO.bytes_to_urlsafe(salt).decode()

    def _initialize_metatags(self):
        if self._METATAGS_LEDGERNAME not in self._manifest:
            self._manifest[self._METATAGS_LEDGERNAME] = []

    def _load_manifest(self):
        if self._root_path.exists():
            self._manifest = Namespace(self._open_manifest())
            self._root_salt = self._load_root_salt()
        else:
            self._manifest = Namespace()
            self._root_salt = self._generate_root_salt()
            self._install_root_salt(self._root_salt)
        self._initialize_metatags()

    def load_tags(self, *, silent=False):
        for tag in self.tags:
            self.query_tag(tag, silent=silent, cache=True)
        return self

    def load_metatags(self, *, preload=True, silent=False):
        for metatag in self.metatags:
            self.metatag(metatag, preload=preload, silent=silent)
        return self

    def load_database(self, *, silent=False, manifest=False, preload=True):
        if manifest:
            self._load_manifest()
        if preload:
            self.load_tags(silent=silent)
        self.load_metatags(preload=preload, silent=silent)
        return self

    def filename(self, tag):
        filename = self._root_kdf.shake_128(self._root_salt, tag.encode(), aad=self._DBDomains.FILENAME, size=FILENAME_HASH_BYTES)
        return self._encode_filename(filename)

    def bytes_encrypt(self, plaintext, *, filename='', aad=DEFAULT_AAD):
        key = self._root_kdf.shake_128(self._DBDomains.CIPHER, self._root_salt, filename.encode(), aad=aad, size=MIN_KEY_BYTES)
        return self._Cipher(key).bytes_encrypt(plaintext)

    def json_encrypt(self, plaintext: t.JSONSerializable, *, filename='', aad=DEFAULT_AAD):
        key = self._root_kdf.shake_128(self._DBDomains.CIPHER, self._root_salt, filename.encode(), aad=aad, size=MIN_KEY_BYTES)
        return self._Cipher(key).json_encrypt(plaintext)

    def make_token(self, plaintext, *, filename='', aad=DEFAULT_AAD):
        key = self._root_kdf.shake_128(self._DBDomains.CIPHER, self._root_salt, filename.encode(), aad=aad, size=MIN_KEY_BYTES)
        return self._TokenCipher(key).make_token(plaintext)

    def bytes_decrypt(self, ciphertext, *, filename='', aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL):
        key = self._root_kdf.shake_128(self._DBDomains.CIPHER, self._root_salt, filename.encode(), aad=aad, size=MIN_KEY_BYTES)
        return self._Cipher(key).bytes_decrypt(ciphertext, ttl=ttl)

    def json_decrypt(self, ciphertext, *, filename='', aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL):
        key = self._root_kdf.shake_128(self._DBDomains.CIPHER, self._root_salt, filename.encode(), aad=aad, size=MIN_KEY_BYTES)
        return self._Cipher(key).json_decrypt(ciphertext, ttl=ttl)

    def read_token(self, token: t.Base64URLSafe, *, filename='', aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL):
        key = self._root_kdf.shake_128(self._DBDomains.CIPHER, self._root_salt, filename.encode(), aad=aad, size=MIN_KEY_BYTES)
        return self._TokenCipher(key).read_token(token, ttl=ttl)

    def _save_ciphertext(self, filename, ciphertext):
        path = self.path / filename
        self.IO.write(path=path, data=ciphertext)

    def set_tag(self, tag, data: t.JSONSerializable, *, cache=True):
        filename = self.filename(tag)
        setattr(self._cache, filename, data)
        setattr(self._manifest, filename, tag)
        if not cache:
            self.save_tag(tag, drop_cache=True)
        return self

    def _query_ciphertext(self, filename, *, silent=False):
        try:
            path = self.path / filename
            return self.IO.read(path=path)
        except FileNotFoundError as error:
            if not silent:
                raise DatabaseIssue.file_not_found(filename) from error

    def query_tag(self, tag, *, ttl: int | None=DEFAULT_TTL, silent=False, cache=False):
        filename = self.filename(tag)
        if filename in self._cache:
            return getattr(self._cache, filename)
        ciphertext = self._query_ciphertext(filename, silent=silent)
        if ciphertext is None:
            return
        result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
        if result[:BYTES_FLAG_SIZE] == BYTES_FLAG:
            result = result[BYTES_FLAG_SIZE:]
        else:
            result = json.loads(result)
        if cache:
            setattr(self._cache, filename, result)
        return result

    def _delete_file(self, filename, *, silent=False):
        try:
            (self.path / filename).unlink()
        except FileNotFoundError as error:
            if not silent:
                raise error from None

    def pop_tag(self, tag, *, silent=False):

        def track_failure(relay: Ignore):
            return failures.append(relay.error) or True
        failures = []
        filename = self.filename(tag)
        value = self.query_tag(tag, cache=False, silent=True)
        with Ignore(KeyError, AttributeError, if_except=track_failure):
            del self._manifest[filename]
        with Ignore(KeyError, AttributeError, if_except=track_failure):
            del self._cache[filename]
        with Ignore(FileNotFoundError, if_except=track_failure):
            self._delete_file(filename)
        if not silent and len(failures) == 3:
            raise DatabaseIssue.tag_file_doesnt_exist(tag)
        return value

    def rollback_tag(self, tag, *, cache=False):
        filename = self.filename(tag)
        if not (self.path / filename).is_file():
            with Ignore(AttributeError):
                delattr(self._manifest, filename)
        with Ignore(AttributeError):
            delattr(self._cache, filename)
        with Ignore(LookupError):
            cache and self.query_tag(tag, cache=True)
        return self

    def clear_cache(self, *, metatags=True):
        self._cache.clear()
        if metatags:
            for metatag in self.metatags:
                getattr(self, metatag).clear_cache(metatags=metatags)
        return self

    def _metatag_key(self, tag):
        return self._root_kdf.sha3_512(self._root_salt, tag.encode(), aad=self._DBDomains.METATAG_KEY)

    def metatag(self, tag, *, preload=False, silent=False):
        cls = self.__class__
        if hasattr(self, tag):
            tag_cls = getattr(self, tag).__class__
            if hasattr(cls, tag) or not issubclass(tag_cls, cls):
                raise Issue.cant_reassign_attribute(tag)
        else:
            sub_database = cls(key=self._metatag_key(tag), preload=preload, path=self.path, metatag=True, silent=silent)
            setattr(self, tag, sub_database)
        if tag not in self.metatags:
            self._manifest[self._METATAGS_LEDGERNAME].append(tag)
        return getattr(self, tag)

    def delete_metatag(self, tag):
        if tag not in self.metatags:
            raise DatabaseIssue.no_existing_metatag(tag)
        self.metatag(tag).delete_database()
        delattr(self, tag)
        self._manifest[self._METATAGS_LEDGERNAME].remove(tag)
        return self

    def _nullify(self):
        self._manifest.clear()
        self._cache.clear()
        self.__dict__.clear()
        for base in self.__class__.__mro__:
            for attr in getattr(base, '__slots__', ()):
                if hasattr(self, attr):
                    delattr(self, attr)

    def _delete_profile_tokens(self):
        if getattr(self, '_profile_tokens', None):
            salt_path = self._profile_tokens._salt_path
            if salt_path.is_file():
                delete_salt_file(salt_path)

    def delete_database(self):
        for metatag in self.metatags:
            self.metatag(metatag, preload=False).delete_database()
        for filename in self._manifest:
            self._delete_file(filename, silent=True)
        self._delete_file(self._root_filename, silent=True)
        self._delete_profile_tokens()
        self._nullify()

    def _encrypt_manifest(self):
        manifest = self._manifest.__dict__
        key = self._root_kdf.shake_128(aad=self._DBDomains.MANIFEST, size=SHAKE_128_BLOCKSIZE)
        return self._Cipher(key).json_encrypt(manifest)

    def _save_manifest(self, ciphertext):
        self.IO.write(path=self._root_path, data=ciphertext)

    def _close_manifest(self):
        manifest = self._encrypt_manifest()
        self._save_manifest(manifest)

    def _save_file(self, filename, *, admin=False):
        value = getattr(self._cache, filename)
        if value.__class__ is bytes:
            value = BYTES_FLAG + value
        else:
            value = json.dumps(value).encode()
        ciphertext = self.bytes_encrypt(value, filename=filename)
        self._save_ciphertext(filename, ciphertext)

    def _save_tags(self):
        save = self._save_file
        for filename in self._cache:
            save(filename)

    def _save_metatags(self):
        for metatag in self.metatags:
            getattr(self, metatag).save_database()

    def save_tag(self, tag, *, admin=False, drop_cache=False):
        filename = self.filename(tag)
        try:
            self._save_file(filename, admin=admin)
        except AttributeError as error:
            raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
        finally:
            if drop_cache and hasattr(self._cache, filename):
                delattr(self._cache, filename)
        return self

    def save_database(self):
        self._close_manifest()
        self._save_metatags()
        self._save_tags()
        return self

    def __enter__(self):
        return self

    def __exit__(self, /, exc_type: type | None=None, exc_value: Exception | None=None, traceback=None):
        self.save_database()
        return exc_type is None
