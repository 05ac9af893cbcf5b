MODULE = "aiootp.randoms.ids.sequence_id"

from aiootp._typing import Typing as t
from aiootp._constants import BIG
from aiootp._permutations import FastAffineXORChain
from aiootp.commons import ConfigMap, FrozenInstance
from aiootp.randoms.ids.sequence_id_config import SequenceIDConfig



class SequenceID(FrozenInstance):
    _configs = ConfigMap({config_id: SequenceIDConfig(config_id=config_id, size=config_id, permutation_type=FastAffineXORChain, permutation_config_id=config_id) for config_id in range(1, 33)}, config_type=SequenceIDConfig)

    @classmethod
    def key_size(cls, config_id: t.Hashable):
        return cls._configs[config_id].KEY_SIZE

    def _initialize_permutation(self, key):
        config_id = self.config.PERMUTATION_CONFIG_ID
        return self.config.Permutation(key=key, config_id=config_id)

    def __init__(self, *, key: bytes | None, config_id: t.Hashable=12):
        self.config = self._configs[config_id]
        self._permutation = self._initialize_permutation(key)

    def new(self, value: int):
        sid = self._permutation.permute(value)
        return sid.to_bytes(self.config.SIZE, BIG)

    def read(self, value):
        return self._permutation.invert(int.from_bytes(value, BIG))
