MODULE = "aiootp._permutations.affine_xor_chain"

import io
from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._exceptions import Issue
from aiootp.asynchs import asleep
from aiootp.commons import ConfigMap, FrozenInstance
from aiootp._permutations.affine_permutation import AffinePermutation
from aiootp._permutations.affine_xor_chain_config import AffineXORChainConfig



class AffineXORChain(FrozenInstance):
    _configs = ConfigMap(mapping={config_id: AffineXORChainConfig(config_id=config_id, size=config_id, permutation_type=AffinePermutation, permutation_config_id=config_id) for config_id in [*range(1, 33), 48, 64, 128, 192, 256]}, config_type=AffineXORChainConfig)

    @classmethod
    def key_size(cls, config_id: t.Hashable):
        return cls._configs[config_id].KEY_SIZE

    def _ingest_key(self, key):
        key_size = self.key_size(self.config.CONFIG_ID)
        if len(key) == key_size:
            return io.BytesIO(key).read
        else:
            cls = self.__class__.__qualname__
            raise Issue.invalid_length(f'{cls} key', key_size)

    def _process_in_key(self, key_reader: t.Callable[[int], bytes], size: int):
        key = key_reader(size)
        if len(key) == size:
            return int.from_bytes(key, BIG)
        else:
            raise Issue.invalid_length('in xor key', size)

    def _process_mid_key(self, key_reader: t.Callable[[int], bytes], size: int):
        c = self.config
        key = key_reader(size)
        if len(key) == size:
            preprocessed_key = int.from_bytes(key, BIG)
            return (preprocessed_key ^ c.IPAD, preprocessed_key ^ c.OPAD)
        else:
            raise Issue.invalid_length('mid xor key', size)

    def _process_out_key(self, key_reader: t.Callable[[int], bytes], size: int):
        key = key_reader(size)
        if len(key) == size:
            return int.from_bytes(key, BIG)
        else:
            raise Issue.invalid_length('out xor key', size)

    def _initialize_keys(self, key_reader: t.Callable[[int], bytes], size: int):
        return (self._process_in_key(key_reader, size), *self._process_mid_key(key_reader, size), self._process_out_key(key_reader, size))

    def _initialize_permutations(self, key_reader: t.Callable[[int], bytes], size: int):
        config_id = self.config.PERMUTATION_CONFIG_ID
        Permutation = self.config.Permutation
        return (Permutation(key=key_reader(size), config_id=config_id), Permutation(key=key_reader(size), config_id=config_id), Permutation(key=key_reader(), config_id=config_id))

    def __init__(self, *, key, config_id: t.Hashable=16):
        self.config = c = self._configs[config_id]
        self._increment = c.XPAD
        key_reader = self._ingest_key(key)
        self._in_key, self._in_mid_key, self._out_mid_key, self._out_key = self._initialize_keys(key_reader, c.XOR_KEY_SIZE)
        self._aff_in, self._aff_mid, self._aff_out = self._initialize_permutations(key_reader, c.ADD_KEY_SIZE)

    def update_increment(self, value: int, /):
        if self.config.DOMAIN > value > 0:
            new_increment = self._increment ^ value | 1
            object.__setattr__(self, '_increment', new_increment)
        else:
            raise Issue.value_must('adjustment', 'be < DOMAIN & > 0')

    def step(self):
        new_in_key = (self._in_key + self._increment) % self.config.DOMAIN
        object.__setattr__(self, '_in_key', new_in_key)

    def uncapped_permute(self, value: int, /):
        return self._aff_out.permute(self._aff_mid.permute(self._aff_in.permute(value) ^ self._in_mid_key) ^ self._out_mid_key)

    def permute(self, value: int, /):
        return self._aff_out.permute(self._aff_mid.permute(self._aff_in.permute(value ^ self._in_key) ^ self._in_mid_key) ^ self._out_mid_key) ^ self._out_key

    def uncapped_invert(self, value: int, /):
        return self._aff_in.invert(self._aff_mid.invert(self._aff_out.invert(value) ^ self._out_mid_key) ^ self._in_mid_key)

    def invert(self, value: int, /):
        return self._aff_in.invert(self._aff_mid.invert(self._aff_out.invert(value ^ self._out_key) ^ self._out_mid_key) ^ self._in_mid_key) ^ self._in_key
