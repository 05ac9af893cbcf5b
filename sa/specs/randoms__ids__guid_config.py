MODULE = "aiootp.randoms.ids.guid_config"

from hashlib import shake_256
from aiootp._typing import Typing as t
from aiootp._paths import SecureSaltPath, read_salt_file
from aiootp.commons import Config
from aiootp.generics import Domains, hash_bytes

_guid_salt_name = Domains.encode_constant(b'default_guid_salt', size=16)
_guid_salt_path = SecureSaltPath(key=_guid_salt_name, _admin=True)
_guid_salt = read_salt_file(_guid_salt_path)


class GUIDConfig(Config):
    slots_types = dict(_DEFAULT_KEY=bytes, AAD=bytes, SIZE=int, KEY_SIZE=int, RAW_GUID_CONFIG_ID=t.Hashable, PERMUTATION_CONFIG_ID=t.Hashable, RawGUID=type, Permutation=t.PermutationType)
    _DEFAULT_SALT_DOMAIN = b'default_guid_salt'

    def _process_raw_guid_config_id(self, raw_guid_config_id):
        if raw_guid_config_id is None:
            return self.CONFIG_ID
        else:
            return raw_guid_config_id

    def _process_permutation_config_id(self, permutation_config_id):
        if permutation_config_id is None:
            return self.CONFIG_ID
        else:
            return permutation_config_id

    def _load_default_key(self):
        config_id = repr(self.CONFIG_ID).encode()
        return hash_bytes(self._DEFAULT_SALT_DOMAIN, config_id, self.AAD, key=_guid_salt, hasher=shake_256, size=self.KEY_SIZE)

    def __init__(self, *, config_id: t.Hashable, size: int, raw_guid_type: type, permutation_type: t.PermutationType, raw_guid_config_id=None, permutation_config_id=None, aad=b''):
        self.CONFIG_ID = config_id
        self.AAD = aad
        self.SIZE = size
        self.KEY_SIZE = permutation_type.key_size(size)
        self._DEFAULT_KEY = self._load_default_key()
        self.RAW_GUID_CONFIG_ID = self._process_raw_guid_config_id(raw_guid_config_id)
        self.PERMUTATION_CONFIG_ID = self._process_permutation_config_id(permutation_config_id)
        self.RawGUID = raw_guid_type
        self.Permutation = permutation_type
