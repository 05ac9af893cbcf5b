MODULE = "aiootp.ciphers.cipher_interface"

import json
from aiootp._typing import Typing as t
from aiootp._constants.misc import DEFAULT_AAD, DEFAULT_TTL
from aiootp._exceptions import Issue, TimestampExpired
from aiootp._exceptions import InvalidBlockID, InvalidSHMAC
from aiootp._gentools import abatch, batch
from aiootp.commons import FrozenInstance
from aiootp.generics import ByteIO
from aiootp.ciphers.ciphertext_formatting import Ciphertext
from aiootp.ciphers.padding import Padding
from aiootp.ciphers.cipher_streams import AsyncCipherStream, CipherStream
from aiootp.ciphers.decipher_streams import AsyncDecipherStream, DecipherStream



class CipherInterface(FrozenInstance):
    InvalidBlockID = InvalidBlockID
    InvalidSHMAC = InvalidSHMAC
    TimestampExpired = TimestampExpired
    _AsyncCipherStream = AsyncCipherStream
    _CipherStream = CipherStream
    _AsyncDecipherStream = AsyncDecipherStream
    _DecipherStream = DecipherStream
    _Ciphertext = Ciphertext
    _Padding = Padding

    def __init_subclass__(cls, /, *a: t.Any, **kw: t.Any):
        cls._padding = cls._Padding(config=cls._config)
        super().__init_subclass__(*a, **kw)

    def __init__(self, /, key):
        self._kdfs = self._KDFs(key, config=self._config)

    def bytes_encrypt(self, /, data, *, salt: bytes | None=None, aad=DEFAULT_AAD):
        key_bundle = self._KeyAADBundle(self._kdfs, salt=salt, aad=aad).sync_mode()
        shmac = self._StreamHMAC(key_bundle)._for_encryption()
        data = batch(self._padding.pad_plaintext(data), size=self._config.BLOCKSIZE)
        ciphertext_blob = b''.join(self._Junction.bytes_encipher(data, shmac=shmac))
        return b''.join([shmac.finalize(), key_bundle.salt, key_bundle.iv, ciphertext_blob])

    def bytes_decrypt(self, /, data, *, aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL):
        data = self._Ciphertext(data, config=self._config)
        key_bundle = self._KeyAADBundle(self._kdfs, salt=data.salt, aad=aad, iv=data.iv).sync_mode()
        shmac = self._StreamHMAC(key_bundle)._for_decryption()
        ciphertext = batch(data.ciphertext, size=self._config.BLOCKSIZE)
        plaintext = b''.join(self._Junction.bytes_decipher(ciphertext, shmac=shmac))
        shmac.finalize()
        shmac.test_shmac(data.shmac)
        return self._padding.depad_plaintext(plaintext, ttl=ttl)

    def json_encrypt(self, /, data: t.JSONSerializable, *, salt: bytes | None=None, aad=DEFAULT_AAD):
        return self.bytes_encrypt(json.dumps(data).encode(), salt=salt, aad=aad)

    def json_decrypt(self, /, data, *, aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL):
        return json.loads(self.bytes_decrypt(data, aad=aad, ttl=ttl))

    def make_token(self, /, data, *, aad=DEFAULT_AAD):
        if data.__class__ is not bytes:
            raise Issue.must_be_type('token data', bytes)
        ciphertext = self.bytes_encrypt(data, aad=aad)
        return ByteIO.bytes_to_urlsafe(ciphertext)

    def read_token(self, /, token: t.Base64URLSafe, *, aad=DEFAULT_AAD, ttl: int | None=DEFAULT_TTL):
        if token.__class__ is not bytes:
            token = token.encode()
        ciphertext = ByteIO.urlsafe_to_bytes(token)
        return self.bytes_decrypt(ciphertext, aad=aad, ttl=ttl)

    def stream_encrypt(self, /, *, salt: bytes | None=None, aad=DEFAULT_AAD):
        return self._CipherStream(self, salt=salt, aad=aad)

    def stream_decrypt(self, /, *, salt, aad=DEFAULT_AAD, iv, ttl: int | None=DEFAULT_TTL):
        return self._DecipherStream(self, salt=salt, aad=aad, iv=iv, ttl=ttl)
