MODULE = "aiootp.ciphers.chunky_2048_config"

from hashlib import shake_128
from aiootp._typing import Typing as t
from aiootp._constants import EPOCH_NS, SECONDS
from aiootp._permutations import FastAffineXORChain
from aiootp.ciphers.dual_output_shake_cipher_config import DualOutputShakeCipherConfig
from aiootp.ciphers.cipher_kdfs import ShakeConfig

BLOCK_ID_KDF = 'block_id_kdf'
SHMAC_KDF = 'shmac_kdf'
LEFT_KDF = 'left_kdf'
RIGHT_KDF = 'right_kdf'


def _dual_output_shake_config_inputs(**kw: t.Any):
    inputs = dict(name='Chunky2048', config_id=b'Chunky2048', blocksize=256, min_padding_blocks=0, epoch_ns=EPOCH_NS, time_unit=SECONDS, timestamp_bytes=4, siv_key_bytes=16, shmac_bytes=32, block_id_bytes=24, max_block_id_bytes=32, min_block_id_bytes=16, salt_bytes=8, iv_bytes=8, block_id_kdf=BLOCK_ID_KDF, block_id_kdf_config=ShakeConfig(name=BLOCK_ID_KDF, pad=b'\xac', offset_amount=0, hasher=shake_128, key_slice=slice(None)), shmac_kdf=SHMAC_KDF, shmac_kdf_config=ShakeConfig(name=SHMAC_KDF, pad=b'\x9a', offset_amount=0, hasher=shake_128, key_slice=slice(None)), left_kdf=LEFT_KDF, left_kdf_config=ShakeConfig(name=LEFT_KDF, pad=b'\\', offset_amount=0, hasher=shake_128, key_slice=slice(0, None, 2)), right_kdf=RIGHT_KDF, right_kdf_config=ShakeConfig(name=RIGHT_KDF, pad=b'6', offset_amount=0, hasher=shake_128, key_slice=slice(1, None, 2)), permutation_type=FastAffineXORChain)
    inputs.update(kw)
    return inputs
chunky2048_spec = DualOutputShakeCipherConfig(**_dual_output_shake_config_inputs())
