MODULE = "aiootp.ciphers.dual_output_shake_cipher"

from aiootp._typing import Typing as t
from aiootp._constants.misc import BIG
from aiootp._exceptions import Issue
from aiootp.asynchs import asleep
from aiootp.commons import FrozenInstance
from aiootp.ciphers.cipher_kdfs import CipherKDFs
from aiootp.ciphers.key_bundle import KeyAADBundle
from aiootp.ciphers.stream_hmac import StreamHMAC
from aiootp.ciphers.synthetic_iv import SyntheticIV
from aiootp.ciphers.stream_junction import StreamJunction
from aiootp.ciphers.chunky_2048_config import SHMAC_KDF, LEFT_KDF, RIGHT_KDF



class DualOutputKDFs(CipherKDFs):

    def __init__(self, key, *, config: t.ConfigType):
        self.config = config
        self.test_key_validity(key)
        self.keyed_shmac_kdf = self.key_base_kdf(SHMAC_KDF, key=key)
        self.keyed_left_kdf = self.key_base_kdf(LEFT_KDF, key=key)
        self.keyed_right_kdf = self.key_base_kdf(RIGHT_KDF, key=key)

    def new_session(self, summary):
        yield (SHMAC_KDF, self.keyed_shmac_kdf.new_session_copy(summary))
        yield (LEFT_KDF, self.keyed_left_kdf.new_session_copy(summary))
        yield (RIGHT_KDF, self.keyed_right_kdf.new_session_copy(summary))


class DualOutputSessionKDFs(FrozenInstance):

    def __init__(self):
        pass

    def __iter__(self):
        yield self.left_kdf
        yield self.right_kdf


class DualOutputKeyAADBundle(KeyAADBundle):
    _Session = DualOutputSessionKDFs

    def _keystream_ratchets(self):
        left_kdf, right_kdf = self._session
        return (left_kdf.update, left_kdf.digest, right_kdf.update, right_kdf.digest)

    def _new_keystream(self):
        config = self.config
        l_update, l_digest, r_update, r_digest = self._keystream_ratchets()
        LEFT_RATCHET_KEY_SLICE, RIGHT_RATCHET_KEY_SLICE, SHMAC_BLOCKSIZE = (config.LEFT_RATCHET_KEY_SLICE, config.RIGHT_RATCHET_KEY_SLICE, config.SHMAC_BLOCKSIZE)
        ratchet_key = (yield)
        while True:
            l_update(ratchet_key[LEFT_RATCHET_KEY_SLICE])
            r_update(ratchet_key[RIGHT_RATCHET_KEY_SLICE])
            ratchet_key = (yield (l_digest(SHMAC_BLOCKSIZE) + r_digest(SHMAC_BLOCKSIZE)))

    def sync_mode(self):
        self._session.keystream = keystream = self._new_keystream()
        keystream.send(None)
        self._mode.set_sync_mode()
        return self

    @property
    def _keystream(self):
        return self._session.keystream


class DualOutputStreamHMAC(StreamHMAC):

    @property
    def _ratchet_key(self):
        return self._current_digest + self._previous_digest

    def _encipher_then_hash(self, plaintext_block, key, *, _from_bytes: t.Callable[..., int]=int.from_bytes):
        config = self.config
        try:
            ciphertext_block = (_from_bytes(key[config.EMBEDDED_CIPHERTEXT_SLICE], BIG) ^ _from_bytes(plaintext_block, BIG)).to_bytes(config.BLOCKSIZE, BIG)
            self._update(key[config.EMBEDDED_LEFT_CAPACITY_SLICE] + ciphertext_block + key[config.EMBEDDED_RIGHT_CAPACITY_SLICE])
            return ciphertext_block
        except OverflowError as error:
            raise Issue.exceeded_blocksize(config.BLOCKSIZE) from error

    def _hash_then_decipher(self, ciphertext_block, key, *, _from_bytes: t.Callable[..., int]=int.from_bytes):
        config = self.config
        try:
            self._update(key[config.EMBEDDED_LEFT_CAPACITY_SLICE] + ciphertext_block + key[config.EMBEDDED_RIGHT_CAPACITY_SLICE])
            return (_from_bytes(key[config.EMBEDDED_CIPHERTEXT_SLICE], BIG) ^ _from_bytes(ciphertext_block, BIG)).to_bytes(config.BLOCKSIZE, BIG)
        except OverflowError as error:
            raise Issue.exceeded_blocksize(config.BLOCKSIZE) from error


class DualOutputSyntheticIV(SyntheticIV):

    @classmethod
    def _unique_cipher(cls, block, keystream: t.Callable[[bytes], bytes], shmac: t.StreamHMACType):
        config = shmac.config
        header = block[config.INNER_HEADER_SLICE]
        masked_header = shmac._permutation.permute(int.from_bytes(header, BIG)).to_bytes(config.INNER_HEADER_BYTES, BIG)
        shmac._mac.update(header + masked_header + shmac._current_digest[config.SIV_DIGEST_SLICE])
        key = keystream(shmac._mac.digest(config.SHMAC_DOUBLE_BLOCKSIZE))
        l_capacity = key[config.EMBEDDED_LEFT_CAPACITY_SLICE]
        r_capacity = key[config.EMBEDDED_RIGHT_CAPACITY_SLICE]
        ciphertext = masked_header + (int.from_bytes(key[config.FIRST_KEY_SLICE], BIG) ^ int.from_bytes(block[config.FIRST_CONTENT_SLICE], BIG)).to_bytes(config.FIRST_CONTENT_BYTES, BIG)
        shmac._update(l_capacity + ciphertext + r_capacity)
        return ciphertext

    @classmethod
    def _unique_decipher(cls, block, keystream: t.Callable[[bytes], bytes], shmac: t.StreamHMACType):
        config = shmac.config
        masked_header = block[config.INNER_HEADER_SLICE]
        header = shmac._permutation.invert(int.from_bytes(masked_header, BIG)).to_bytes(config.INNER_HEADER_BYTES, BIG)
        shmac._mac.update(header + masked_header + shmac._current_digest[config.SIV_DIGEST_SLICE])
        key = keystream(shmac._mac.digest(config.SHMAC_DOUBLE_BLOCKSIZE))
        l_capacity = key[config.EMBEDDED_LEFT_CAPACITY_SLICE]
        r_capacity = key[config.EMBEDDED_RIGHT_CAPACITY_SLICE]
        plaintext = header + (int.from_bytes(key[config.FIRST_KEY_SLICE], BIG) ^ int.from_bytes(block[config.FIRST_CONTENT_SLICE], BIG)).to_bytes(config.FIRST_CONTENT_BYTES, BIG)
        shmac._update(l_capacity + block + r_capacity)
        return plaintext


class DualOutputStreamJunction(StreamJunction):
    _SyntheticIV = DualOutputSyntheticIV

    @classmethod
    def combine_streams(cls, data: t.Datastream, *, shmac: t.StreamHMACType):
        keystream, validated_transform = (shmac._key_bundle._keystream.send, shmac._validated_transform)
        yield cls._SyntheticIV.validated_transform(data, keystream, shmac)
        for block in data:
            yield validated_transform(block, keystream(shmac._ratchet_key))
