MODULE = "aiootp.keygens.curve_25519.shared_interface"

from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PublicKey, X25519PrivateKey
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey, Ed25519PrivateKey
from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.asynchs import asleep
from aiootp.commons import FrozenInstance



class Base25519(FrozenInstance):
    PublicKey = None
    SecretKey = None

    def __init__(self, /):
        self._secret_key = None
        self._public_key = None

    @classmethod
    def _process_secret_key(cls, secret_key, /):
        key_type = secret_key.__class__
        if key_type is bytes:
            return cls.SecretKey.from_private_bytes(secret_key)
        elif issubclass(key_type, cls.SecretKey):
            return secret_key
        else:
            raise Issue.must_be_type('secret_key', 'valid key type')

    @classmethod
    def _process_public_key(cls, public_key, /):
        key_type = public_key.__class__
        if key_type is bytes:
            return cls.PublicKey.from_public_bytes(public_key)
        elif issubclass(key_type, cls.PublicKey):
            return public_key
        else:
            raise Issue.must_be_type('public_key', 'valid key type')

    def import_secret_key(self, secret_key, /):
        if self.has_public_key():
            raise Issue.cant_reassign_attribute('public_key')
        insert = object.__setattr__
        insert(self, '_secret_key', self._process_secret_key(secret_key))
        insert(self, '_public_key', self._secret_key.public_key())
        return self

    def import_public_key(self, public_key, /):
        if self.has_public_key():
            raise Issue.cant_reassign_attribute('public_key')
        insert = object.__setattr__
        insert(self, '_secret_key', None)
        insert(self, '_public_key', self._process_public_key(public_key))
        return self

    def generate(self, /):
        return self.import_secret_key(self.SecretKey.generate())

    @property
    def secret_key(self, /):
        return self._secret_key

    @property
    def public_key(self, /):
        return self._public_key

    @property
    def secret_bytes(self, /):
        return self._secret_key.private_bytes_raw()

    @property
    def public_bytes(self, /):
        return self._public_key.public_bytes_raw()

    def has_secret_key(self, /):
        return self._secret_key is not None

    def has_public_key(self, /):
        return self._public_key is not None
