MODULE = "aiootp.randoms.ids.sequence_id_config"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.commons import Config



class SequenceIDConfig(Config):
    slots_types = dict(SIZE=int, KEY_SIZE=int, PERMUTATION_CONFIG_ID=t.Hashable, Permutation=t.PermutationType)

    def _process_size(self, size: int):
        if 4096 >= size > 0:
            return size
        else:
            raise Issue.value_must('size', 'be > 0 and <= 4096')

    def _process_permutation_config_id(self, permutation_config_id):
        if permutation_config_id is None:
            return self.CONFIG_ID
        else:
            return permutation_config_id

    def __init__(self, *, config_id: t.Hashable, size: int, permutation_type: t.PermutationType, permutation_config_id=None):
        self.CONFIG_ID = config_id
        self.SIZE = self._process_size(size)
        self.PERMUTATION_CONFIG_ID = self._process_permutation_config_id(permutation_config_id)
        self.Permutation = permutation_type
        self.KEY_SIZE = self.Permutation.key_size(self.SIZE)
