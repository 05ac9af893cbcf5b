MODULE = "aiootp.ciphers.stream_hmac"

from aiootp._typing import Typing as t
from aiootp._constants import DEFAULT_AAD, BIG
from aiootp._constants import ENCRYPTION, DECRYPTION
from aiootp._exceptions import Issue, SHMACIssue, ValidationIncomplete
from aiootp._exceptions import InvalidBlockID, InvalidSHMAC
from aiootp.asynchs import asleep
from aiootp.generics import bytes_are_equal
from aiootp.ciphers.key_bundle import KeyAADBundle



class StreamHMAC:
    InvalidBlockID = InvalidBlockID
    InvalidSHMAC = InvalidSHMAC

    def __init__(self, key_bundle: KeyAADBundle):
        if not issubclass(key_bundle.__class__, KeyAADBundle):
            raise Issue.must_be_type('key_bundle', KeyAADBundle)
        self._mode = None
        self._is_finalized = False
        self._result_is_ready = False
        self._register_key_bundle(key_bundle)
        self._initialize_session_state()
        self._update = self._placeholder_update
        self._aupdate = self._aplaceholder_update

    def _register_key_bundle(self, key_bundle: KeyAADBundle):
        key_bundle._mode.validate()
        self._key_bundle = key_bundle
        self.config = key_bundle.config
        self._mac = key_bundle._shmac_kdf

    def _initialize_session_state(self):
        config = self.config
        primer_key = self._mac.digest(config.PRIMER_KEY_BYTES)
        self._previous_digest = self._current_digest = primer_key[config.FIRST_DIGEST_SLICE]
        self._permutation = config.Permutation(key=primer_key[config.PERMUTATION_KEY_SLICE], config_id=config.PERMUTATION_CONFIG_ID)

    @property
    def mode(self):
        return self._mode

    @property
    def result(self):
        if not self._result_is_ready:
            raise ValidationIncomplete
        return self._result

    def _for_encryption(self):
        if self._mode:
            raise Issue.value_already_set('shmac', self._mode)
        elif self._key_bundle._iv_given_by_user:
            raise SHMACIssue.invalid_iv_usage()
        self._mode = ENCRYPTION
        self._update = self._update_mac
        self._aupdate = self._aupdate_mac
        self._validated_transform = self._encipher_then_hash
        self._avalidated_transform = self._aencipher_then_hash
        return self

    def _for_decryption(self):
        if self._mode:
            raise Issue.value_already_set('shmac', self._mode)
        elif not self._key_bundle._iv_given_by_user:
            raise SHMACIssue.invalid_iv_usage()
        self._mode = DECRYPTION
        self._update = self._update_mac
        self._aupdate = self._aupdate_mac
        self._validated_transform = self._hash_then_decipher
        self._avalidated_transform = self._ahash_then_decipher
        return self

    def _placeholder_update(self, *_: t.Any, **__: t.Any):
        raise SHMACIssue.no_cipher_mode_declared()

    def _update_mac(self, ciphertext_block):
        mac = self._mac
        mac.update(ciphertext_block)
        self._previous_digest, self._current_digest = (self._current_digest, mac.digest(self.config.SHMAC_BLOCKSIZE))
        return self

    def _test_block_id_size(self, size: int):
        if size < self.config.MIN_BLOCK_ID_BYTES:
            raise SHMACIssue.block_id_is_too_small(size, self.config.MIN_BLOCK_ID_BYTES)
        elif size > self.config.MAX_BLOCK_ID_BYTES:
            raise SHMACIssue.block_id_is_too_big(size, self.config.MAX_BLOCK_ID_BYTES)

    def _get_block_id_mac(self):
        if self._mode == ENCRYPTION:
            return self._previous_digest
        else:
            return self._current_digest

    def next_block_id(self, next_block, *, size: int | None=None, aad=DEFAULT_AAD, _join: t.Callable[..., bytes]=b''.join):
        size = size or self.config.BLOCK_ID_BYTES
        self._test_block_id_size(size)
        mac = self.config.BLOCK_ID_KDF_CONFIG.factory()
        payload = (self._get_block_id_mac(), size.to_bytes(1, BIG), len(aad).to_bytes(8, BIG), aad, len(next_block).to_bytes(8, BIG), next_block)
        mac.update(_join(payload))
        return mac.digest(size)

    def _set_final_result(self):
        self._result = self._mac.digest(self.config.SHMAC_DOUBLE_BLOCKSIZE)[self.config.SHMAC_RESULT_SLICE]

    def finalize(self):
        if self._is_finalized:
            raise SHMACIssue.already_finalized()
        self._is_finalized = True
        self._set_final_result()
        self._result_is_ready = True
        del self._mac
        del self._previous_digest
        del self._current_digest
        return self._result

    def test_next_block_id(self, untrusted_block_id, next_block, aad=DEFAULT_AAD):
        if untrusted_block_id.__class__ is not bytes:
            raise Issue.must_be_type('untrusted_block_id', bytes)
        size = len(untrusted_block_id)
        block_id = self.next_block_id(next_block, size=size, aad=aad)
        if not bytes_are_equal(untrusted_block_id, block_id):
            raise SHMACIssue.invalid_block_id()

    def test_shmac(self, untrusted_shmac):
        if untrusted_shmac.__class__ is not bytes:
            raise Issue.must_be_type('untrusted_shmac', bytes)
        elif not bytes_are_equal(untrusted_shmac, self.result):
            raise SHMACIssue.invalid_shmac()
