MODULE = "aiootp.keygens.curve_25519.x25519"

from aiootp._typing import Typing as t
from aiootp.asynchs import asleep
from aiootp.keygens.domain_kdf import DomainKDF
from aiootp.keygens.curve_25519.shared_interface import Base25519
from aiootp.keygens.curve_25519.double_diffie_hellman_client import DoubleDiffieHellmanClient
from aiootp.keygens.curve_25519.double_diffie_hellman_server import DoubleDiffieHellmanServer
from aiootp.keygens.curve_25519.triple_diffie_hellman_client import TripleDiffieHellmanClient
from aiootp.keygens.curve_25519.triple_diffie_hellman_server import TripleDiffieHellmanServer



class X25519(Base25519):
    _KDF = DomainKDF
    _DoubleDiffieHellmanClient = DoubleDiffieHellmanClient
    _DoubleDiffieHellmanServer = DoubleDiffieHellmanServer
    _TripleDiffieHellmanClient = TripleDiffieHellmanClient
    _TripleDiffieHellmanServer = TripleDiffieHellmanServer
    PublicKey = t.X25519PublicKey
    SecretKey = t.X25519PrivateKey

    def exchange(self, public_key, /):
        if public_key.__class__ is bytes:
            public_key = self.PublicKey.from_public_bytes(public_key)
        return self._secret_key.exchange(public_key)

    @classmethod
    def dh2_client(cls, /):
        return cls._DoubleDiffieHellmanClient(cls, kdf_type=cls._KDF)

    def dh2_server(self, /):
        return self._DoubleDiffieHellmanServer(self, kdf_type=self._KDF)

    def dh3_client(self, /):
        return self._TripleDiffieHellmanClient(self, kdf_type=self._KDF)

    def dh3_server(self, /):
        return self._TripleDiffieHellmanServer(self, kdf_type=self._KDF)
