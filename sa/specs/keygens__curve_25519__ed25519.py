MODULE = "aiootp.keygens.curve_25519.ed25519"

from aiootp._typing import Typing as t
from aiootp.asynchs import asleep
from aiootp.keygens.curve_25519.shared_interface import Base25519



class Ed25519(Base25519):
    InvalidSignature = t.InvalidSignature
    PublicKey = t.Ed25519PublicKey
    SecretKey = t.Ed25519PrivateKey

    def sign(self, data, /):
        return self.secret_key.sign(data)

    def verify(self, /, signature, data, *, public_key=None):
        if public_key is None:
            public_key = self.public_key
        else:
            public_key = self._process_public_key(public_key)
        public_key.verify(signature, data)
