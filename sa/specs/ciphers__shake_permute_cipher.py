MODULE = "aiootp.ciphers.shake_permute_cipher"

from aiootp._typing import Typing as t
from aiootp._constants.misc import BIG
from aiootp._exceptions import Issue
from aiootp.asynchs import asleep
from aiootp.commons import FrozenInstance
from aiootp.ciphers.cipher_kdfs import CipherKDFs
from aiootp.ciphers.key_bundle import KeyAADBundle
from aiootp.ciphers.stream_hmac import StreamHMAC
from aiootp.ciphers.stream_junction import StreamJunction
from aiootp.ciphers.slick_256_config import SHMAC_KDF



class ShakePermuteKDFs(CipherKDFs):

    def __init__(self, key, *, config: t.ConfigType):
        self.config = config
        self.test_key_validity(key)
        self.keyed_shmac_kdf = self.key_base_kdf(SHMAC_KDF, key=key)

    def new_session(self, summary):
        yield (SHMAC_KDF, self.keyed_shmac_kdf.new_session_copy(summary))


class ShakePermuteSessionKDFs(FrozenInstance):

    def __init__(self):
        pass


class ShakePermuteKeyAADBundle(KeyAADBundle):
    _Session = ShakePermuteSessionKDFs

    def sync_mode(self):
        self._mode.set_sync_mode()
        return self


class ShakePermuteStreamHMAC(StreamHMAC):

    def _encipher_then_hash(self, plaintext, *, _from_bytes: t.Callable[[bytes, str], int]=int.from_bytes):
        c = self.config
        try:
            digest = self._current_digest[c.PERMUTATION_DIGEST_SLICE]
            in_key = _from_bytes(self._current_digest[c.IN_KEY_SLICE], BIG)
            out_key = _from_bytes(self._current_digest[c.OUT_KEY_SLICE], BIG)
            ciphertext = (out_key ^ self._permutation.uncapped_permute(in_key ^ _from_bytes(plaintext, BIG))).to_bytes(c.BLOCKSIZE, BIG)
            self._update(plaintext + ciphertext + digest)
            return ciphertext
        except OverflowError as error:
            raise Issue.exceeded_blocksize(c.BLOCKSIZE) from error

    def _hash_then_decipher(self, ciphertext, *, _from_bytes: t.Callable[[bytes, str], int]=int.from_bytes):
        c = self.config
        try:
            digest = self._current_digest[c.PERMUTATION_DIGEST_SLICE]
            in_key = _from_bytes(self._current_digest[c.IN_KEY_SLICE], BIG)
            out_key = _from_bytes(self._current_digest[c.OUT_KEY_SLICE], BIG)
            plaintext = (in_key ^ self._permutation.uncapped_invert(out_key ^ _from_bytes(ciphertext, BIG))).to_bytes(c.BLOCKSIZE, BIG)
            self._update(plaintext + ciphertext + digest)
            return plaintext
        except OverflowError as error:
            raise Issue.exceeded_blocksize(c.BLOCKSIZE) from error


class ShakePermuteStreamJunction(StreamJunction):

    @classmethod
    def combine_streams(cls, data: t.Datastream, *, shmac: StreamHMAC):
        validated_transform = shmac._validated_transform
        for block in data:
            yield validated_transform(block)
