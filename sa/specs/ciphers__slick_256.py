MODULE = "aiootp.ciphers.slick_256"

from aiootp._typing import Typing as t
from aiootp.ciphers.shake_permute_cipher import ShakePermuteKDFs
from aiootp.ciphers.shake_permute_cipher import ShakePermuteKeyAADBundle
from aiootp.ciphers.shake_permute_cipher import ShakePermuteStreamHMAC
from aiootp.ciphers.shake_permute_cipher import ShakePermuteStreamJunction
from aiootp.ciphers.cipher_interface import CipherInterface
from aiootp.ciphers.slick_256_config import slick256_spec



class Slick256(CipherInterface):
    _KDFs = ShakePermuteKDFs
    _KeyAADBundle = ShakePermuteKeyAADBundle
    _StreamHMAC = ShakePermuteStreamHMAC
    _Junction = ShakePermuteStreamJunction
    _config = slick256_spec
