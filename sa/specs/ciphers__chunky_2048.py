MODULE = "aiootp.ciphers.chunky_2048"

from aiootp._typing import Typing as t
from aiootp.ciphers.dual_output_shake_cipher import DualOutputKDFs
from aiootp.ciphers.dual_output_shake_cipher import DualOutputKeyAADBundle
from aiootp.ciphers.dual_output_shake_cipher import DualOutputStreamHMAC
from aiootp.ciphers.dual_output_shake_cipher import DualOutputStreamJunction
from aiootp.ciphers.cipher_interface import CipherInterface
from aiootp.ciphers.chunky_2048_config import chunky2048_spec



class Chunky2048(CipherInterface):
    _KDFs = DualOutputKDFs
    _KeyAADBundle = DualOutputKeyAADBundle
    _StreamHMAC = DualOutputStreamHMAC
    _Junction = DualOutputStreamJunction
    _config = chunky2048_spec
