MODULE = "aiootp._permutations.fast_affine_xor_chain"

from aiootp._typing import Typing as t
from aiootp.commons import ConfigMap
from aiootp._permutations.affine_permutation import AffinePermutation
from aiootp._permutations.affine_xor_chain_config import AffineXORChainConfig
from aiootp._permutations.affine_xor_chain import AffineXORChain



class FastAffineXORChain(AffineXORChain):
    _configs = ConfigMap(mapping={config_id: AffineXORChainConfig(config_id=config_id, size=config_id, permutation_type=AffinePermutation, permutation_config_id=config_id, key_types=AffineXORChainConfig._FAST_CHAIN_KEY_TYPES) for config_id in [*range(1, 33), 48, 64, 128, 192, 256]}, config_type=AffineXORChainConfig)

    def _initialize_permutations(self, key_reader: t.Callable[[int], bytes], size: int):
        cid = self.config.PERMUTATION_CONFIG_ID
        Permutation = self.config.Permutation
        aff = Permutation(key=key_reader(size), config_id=cid)
        return (aff, aff, aff)
