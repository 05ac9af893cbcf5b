MODULE = "aiootp.ciphers.slick_256_config"

from hashlib import shake_128
from aiootp._typing import Typing as t
from aiootp._constants import EPOCH_NS, SECONDS
from aiootp._permutations import FastAffineXORChain
from aiootp.ciphers.shake_permute_cipher_config import ShakePermuteCipherConfig
from aiootp.ciphers.cipher_kdfs import ShakeConfig

BLOCK_ID_KDF = 'block_id_kdf'
SHMAC_KDF = 'shmac_kdf'


def _shake_permute_config_inputs(**kw: t.Any):
    inputs = dict(name='Slick256', config_id=b'Slick256', blocksize=32, min_padding_blocks=0, epoch_ns=EPOCH_NS, time_unit=SECONDS, timestamp_bytes=4, siv_key_bytes=8, shmac_bytes=24, block_id_bytes=16, max_block_id_bytes=32, min_block_id_bytes=16, salt_bytes=8, iv_bytes=8, block_id_kdf=BLOCK_ID_KDF, block_id_kdf_config=ShakeConfig(name=BLOCK_ID_KDF, pad=b'\x9a', offset_amount=0, hasher=shake_128, key_slice=slice(None)), shmac_kdf=SHMAC_KDF, shmac_kdf_config=ShakeConfig(name=SHMAC_KDF, pad=b'\xac', offset_amount=0, hasher=shake_128, key_slice=slice(None)), permutation_type=FastAffineXORChain)
    inputs.update(kw)
    return inputs
slick256_spec = ShakePermuteCipherConfig(**_shake_permute_config_inputs())
