MODULE = "aiootp.keygens.curve_25519.double_diffie_hellman_server"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.commons import FrozenInstance
from aiootp.generics import Domains



class DoubleDiffieHellmanServer(FrozenInstance):

    def __init__(self, /, my_identity_key: t.KeyExchangeType, *, kdf_type: type):
        if not issubclass(kdf_type, t.DomainKDFType):
            raise Issue.must_be_subtype('KDF type', t.DomainKDFType)
        elif not isinstance(my_identity_key, t.KeyExchangeType):
            raise Issue.must_be_type('KEX ID key', t.KeyExchangeType)
        self._kdf_type = kdf_type
        self._key_exchange_type = my_identity_key.__class__
        self._my_identity_key = my_identity_key
        self._sanitize = self._key_exchange_type._process_public_key

    def receive(self, /, peer_ephemeral_key):
        my_identity_key = self._my_identity_key
        my_ephemeral_key = self._my_ephemeral_key = self._key_exchange_type().generate()
        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
        shared_key_ad = my_identity_key.exchange(peer_ephemeral_key)
        shared_key_cd = my_ephemeral_key.exchange(peer_ephemeral_key)
        return self._kdf_type(Domains.DH2, peer_ephemeral_key.public_bytes_raw(), my_identity_key.public_bytes, my_ephemeral_key.public_bytes, key=shared_key_ad + shared_key_cd)

    def send(self, /):
        return self._my_ephemeral_key.public_bytes
