MODULE = "aiootp._permutations.affine_xor_chain_config"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.commons import Config



class AffineXORChainConfig(Config):
    slots_types = dict(SIZE=int, IPAD=int, OPAD=int, XPAD=int, DOMAIN=int, KEY_TYPES=tuple, KEY_SIZE=int, ADD_KEY_SIZE=int, XOR_KEY_SIZE=int, PERMUTATION_CONFIG_ID=t.Hashable, Permutation=t.PermutationType)
    _DEFAULT_KEY_TYPES = (('in_xor', 1), ('in_add', 2), ('mid_xor', 1), ('mid_add', 2), ('out_xor', 1), ('out_add', 2))
    _FAST_CHAIN_KEY_TYPES = (('add', 2), ('in_xor', 1), ('mid_xor', 1), ('out_xor', 1))

    def _process_size(self, size: int):
        if 4096 >= size > 0:
            return size
        else:
            raise Issue.value_must('size', 'be > 0 and <= 4096')

    def _process_key_types(self, key_types: tuple[tuple[str, int]] | None):
        if key_types is None:
            return self._DEFAULT_KEY_TYPES
        elif not all((name.isidentifier() and size_multiple.__class__ is int and (33 > size_multiple > 0) for name, size_multiple in key_types)):
            raise Issue.value_must('key_types', 'contain (str, int) pairs')
        else:
            return key_types

    def _process_permutation_config_id(self, permutation_config_id):
        if permutation_config_id is None:
            return self.CONFIG_ID
        else:
            return permutation_config_id

    def _process_permutation(self, permutation_type: type):
        if issubclass(permutation_type, t.PermutationType):
            return permutation_type
        else:
            raise Issue.must_be_subtype(f'permutation_type={permutation_type!r}', t.PermutationType)

    def __init__(self, *, config_id: t.Hashable, size: int, permutation_type: type, permutation_config_id=None, key_types: tuple[tuple[str, int]] | None=None):
        self.CONFIG_ID = config_id
        self.SIZE = self._process_size(size)
        self.IPAD = int(self.SIZE * 'a3', 16)
        self.OPAD = int(self.SIZE * '1b', 16)
        self.XPAD = int(self.SIZE * '8d', 16)
        self.DOMAIN = 1 << 8 * self.SIZE
        self.KEY_TYPES = self._process_key_types(key_types)
        self.KEY_SIZE = self.SIZE * sum((multiple for name, multiple in self.KEY_TYPES))
        self.ADD_KEY_SIZE = 2 * self.SIZE
        self.XOR_KEY_SIZE = self.SIZE
        self.PERMUTATION_CONFIG_ID = self._process_permutation_config_id(permutation_config_id)
        self.Permutation = self._process_permutation(permutation_type)
