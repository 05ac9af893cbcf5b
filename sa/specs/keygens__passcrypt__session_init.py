MODULE = "aiootp.keygens.passcrypt.session_init"

import math
from hashlib import shake_128
from aiootp._typing import Typing as t
from aiootp._constants import B_TO_MB_RATIO, DEFAULT_AAD
from aiootp._constants import INT_BYTES, BIG, SHAKE_128_BLOCKSIZE
from aiootp.commons import FrozenInstance
from aiootp.generics import Domains, hash_bytes



class PasscryptSession(FrozenInstance):
    _new_passcrypt_proof_kdf = shake_128(Domains.encode_constant(b'passcrypt_proof_kdf_salt', domain=Domains.PASSCRYPT, size=SHAKE_128_BLOCKSIZE)).copy

    def __init__(self, passphrase, salt, *, mb: int, cpu: int, cores: int, tag_size: int, config: t.ConfigType, aad=DEFAULT_AAD):
        self.config = config
        config.validate_inputs(passphrase=passphrase, salt=salt, aad=aad)
        config.validate_settings(mb=mb, cpu=cpu, cores=cores, tag_size=tag_size, salt_size=len(salt))
        self.passphrase = passphrase
        self.salt = salt
        self.aad = aad
        self.mb = mb
        self.cpu = cpu
        self.cores = cores
        self.tag_size = tag_size

    def __iter__(self):
        yield from (self.ram, self.proof.update, self.proof.digest, self.row_size, self.total_size)

    def _hash_session_parameters(self):
        return hash_bytes(Domains.PASSCRYPT, self.config.PACKED_METADATA, self.salt, self.aad, self.mb.to_bytes(INT_BYTES, BIG), self.cpu.to_bytes(INT_BYTES, BIG), self.cores.to_bytes(INT_BYTES, BIG), self.tag_size.to_bytes(INT_BYTES, BIG), key=self.passphrase + self.salt + self.aad, hasher=shake_128, size=336, pad=self.config.PASSCRYPT_PAD)

    def prepare_session(self):
        rounds = max((1, self.cpu // self.config.CPU_TO_DIGEST_PAIRS_PER_ROW_RATIO))
        self.rows = math.ceil(B_TO_MB_RATIO * self.mb / (336 * rounds))
        self.row_size = 336 * rounds
        self.total_size = self.row_size * self.rows
        parameters = self._hash_session_parameters()
        self.proof = self._new_passcrypt_proof_kdf()
        self.proof.update(parameters)
        return self

    def allocate_ram(self):
        self.ram = bytearray()
        size = self.total_size
        max_size = B_TO_MB_RATIO * 512 - 1
        while size > max_size:
            self.ram.extend(self.proof.digest(max_size))
            self.proof.update(self.ram[-168:])
            size -= max_size
        if size:
            self.ram.extend(self.proof.digest(size))
            self.proof.update(self.ram[-168:])
        return self
