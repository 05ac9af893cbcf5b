MODULE = "aiootp.keygens.curve_25519.double_diffie_hellman_client"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.commons import FrozenInstance
from aiootp.generics import Domains



class DoubleDiffieHellmanClient(FrozenInstance):

    def __init__(self, /, key_exchange_type: type, *, kdf_type: type):
        if not issubclass(kdf_type, t.DomainKDFType):
            raise Issue.must_be_subtype('KDF type', t.DomainKDFType)
        elif not issubclass(key_exchange_type, t.KeyExchangeType):
            raise Issue.must_be_subtype('KEX type', t.KeyExchangeType)
        self._kdf_type = kdf_type
        self._key_exchange_type = key_exchange_type
        self._sanitize = key_exchange_type._process_public_key

    def send(self, /, peer_identity_key):
        self._peer_identity_key = self._sanitize(peer_identity_key)
        self._my_ephemeral_key = self._key_exchange_type().generate()
        return self._my_ephemeral_key.public_bytes

    def receive(self, /, peer_ephemeral_key):
        my_ephemeral_key = self._my_ephemeral_key
        peer_identity_key = self._peer_identity_key
        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
        shared_key_ad = my_ephemeral_key.exchange(peer_identity_key)
        shared_key_cd = my_ephemeral_key.exchange(peer_ephemeral_key)
        return self._kdf_type(Domains.DH2, my_ephemeral_key.public_bytes, self._peer_identity_key.public_bytes_raw(), self._peer_ephemeral_key.public_bytes_raw(), key=shared_key_ad + shared_key_cd)
