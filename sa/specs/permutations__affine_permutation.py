MODULE = "aiootp._permutations.affine_permutation"

from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._exceptions import Issue
from aiootp.asynchs import asleep
from aiootp.commons import ConfigMap, FrozenInstance
from aiootp._permutations.affine_permutation_config import AffinePermutationConfig



class AffinePermutation(FrozenInstance):
    _configs = ConfigMap(mapping={config_id: AffinePermutationConfig(size=config_id) for config_id in [*range(1, 33), 48, 64, 128, 192, 256]}, config_type=AffinePermutationConfig)

    @classmethod
    def key_size(cls, config_id: t.Hashable):
        return cls._configs[config_id].KEY_SIZE

    def _process_additive_key(self, key, size: int):
        if len(key) == size:
            return int.from_bytes(key, BIG)
        else:
            raise Issue.invalid_length('additive_key', size)

    def __init__(self, *, key, config_id: t.Hashable=16):
        self.config = c = self._configs[config_id]
        self._additive_key = self._process_additive_key(key, c.KEY_SIZE)
        self._MAX = c.MAX
        self._PRIME = c.PRIME

    def permute(self, value: int):
        value = (self.config.MULTIPLICATIVE_KEY * value + self._additive_key) % self._PRIME
        while value > self._MAX:
            value = (self.config.MULTIPLICATIVE_KEY * value + self._additive_key) % self._PRIME
        return value

    def invert(self, value: int):
        value = self.config.INVERSE_KEY * (value - self._additive_key) % self._PRIME
        while value > self._MAX:
            value = self.config.INVERSE_KEY * (value - self._additive_key) % self._PRIME
        return value
