MODULE = "aiootp.ciphers.key_bundle"

from secrets import token_bytes
from aiootp._typing import Typing as t
from aiootp._constants import DEFAULT_AAD, ASYNC, SYNC, BIG
from aiootp._exceptions import Issue, KeyAADIssue
from aiootp.commons import FrozenSlots, OpenFrozenSlots
from aiootp.generics import canonical_pack
from aiootp.ciphers.cipher_kdfs import CipherKDFs



class SaltAADIV(FrozenSlots):
    _UNMAPPED_ATTRIBUTES = frozenset({'config', 'iv_is_fresh'})

    def __init__(self, salt: bytes | None=None, aad=DEFAULT_AAD, iv: bytes | None=None, *, config: t.ConfigType):
        self.config = config
        self.salt = salt or token_bytes(config.SALT_BYTES)
        self.aad = aad
        self.iv = self._process_iv(iv)
        self._test_salt_aad_iv(self.salt, self.aad, self.iv)

    def _process_iv(self, iv: bytes | None):
        if iv is None:
            self.iv_is_fresh = True
            return token_bytes(self.config.IV_BYTES)
        else:
            self.iv_is_fresh = False
            return iv

    def _test_salt_aad_iv(self, salt, aad, iv):
        config = self.config
        if salt.__class__ is not bytes:
            raise Issue.must_be_type('salt', bytes)
        elif len(salt) != config.SALT_BYTES:
            raise Issue.invalid_length('salt', config.SALT_BYTES)
        elif aad.__class__ is not bytes:
            raise Issue.must_be_type('aad', bytes)
        elif iv.__class__ is not bytes:
            raise Issue.must_be_type('iv', bytes)
        elif len(iv) != config.IV_BYTES:
            raise Issue.invalid_length('iv', config.IV_BYTES)


class KeyAADRegisters(FrozenSlots):

    def register(self, name, value: t.Any):
        setattr(self, name, value)


class KeyAADMode(OpenFrozenSlots):

    def __eq__(self, mode):
        return self.mode == mode

    def __hash__(self):
        try:
            return int.from_bytes(self._mode.encode(), BIG)
        except AttributeError as error:
            raise KeyAADIssue.KDFModeNotDeclared from error

    @property
    def mode(self):
        try:
            return self._mode
        except AttributeError as error:
            raise KeyAADIssue.KDFModeNotDeclared from error

    def set_sync_mode(self):
        self._mode = SYNC

    def validate(self):
        return self.mode and None


class KeyAADBundle:
    _Mode = KeyAADMode
    _Registers = KeyAADRegisters
    _SaltAADIV = SaltAADIV

    def __init__(self, kdfs: CipherKDFs, *, salt: bytes | None=None, aad=DEFAULT_AAD, iv: bytes | None=None):
        if not issubclass(kdfs.__class__, CipherKDFs):
            raise Issue.must_be_type('kdfs', CipherKDFs)
        self.config = kdfs.config
        self._kdfs = kdfs
        self._session = self._Session()
        self._mode = self._Mode()
        self._registers = self._Registers()
        self._bundle = self._SaltAADIV(salt=salt, aad=aad, iv=iv, config=self.config)
        self._initialize_session()

    def __iter__(self):
        yield self._bundle.salt
        yield self._bundle.aad
        yield self._bundle.iv

    def _initialize_session(self):
        session = self._session
        summary = canonical_pack(*self, int_bytes=4)
        for kdf_name, kdf_session_copy in self._kdfs.new_session(summary):
            setattr(session, kdf_name, kdf_session_copy)

    def _register_shmac(self, shmac: t.StreamHMACType):
        if hasattr(self._registers, 'shmac'):
            raise KeyAADIssue.shmac_already_registered()
        self._registers.register('shmac', shmac)

    @property
    def salt(self):
        return self._bundle.salt

    @property
    def aad(self):
        return self._bundle.aad

    @property
    def _iv_given_by_user(self):
        return not self._bundle.iv_is_fresh

    @property
    def iv(self):
        return self._bundle.iv

    @property
    def _shmac_kdf(self):
        return self._session.shmac_kdf
