MODULE = "aiootp.commons.configs"

from aiootp._typing import Typing as t
from aiootp._constants import CONFIG_ID, CONFIG_TYPE
from aiootp._exceptions import Issue
from aiootp.commons.typed_slots import OpenFrozenTypedSlots
from aiootp.commons.namespaces import OpenFrozenNamespace



class Config(OpenFrozenTypedSlots):
    slots_types = dict(CONFIG_ID=t.Hashable)

    def __setitem__(self, name, value: t.Any, /):
        if name == CONFIG_ID:
            self.set_config_id(value)
        else:
            super().__setitem__(name, value)

    def set_config_id(self, config_id: t.Hashable, /):
        self._validate_type(CONFIG_ID, config_id)
        if not hasattr(self, CONFIG_ID):
            object.__setattr__(self, CONFIG_ID, config_id)
        elif config_id != self.CONFIG_ID:
            raise Issue.value_must(f'config_id={config_id!r}', f'match self.CONFIG_ID={self.CONFIG_ID!r}')


class ConfigMap(OpenFrozenNamespace):
    _UNMAPPED_ATTRIBUTES = frozenset({CONFIG_TYPE})

    def __init__(self, /, mapping: t.Mapping[t.Hashable, t.ConfigType]={}, *, config_type: type, **kw: t.Any):
        if not issubclass(config_type, Config):
            raise Issue.must_be_subtype(f'config_type={config_type!r}', Config)
        object.__setattr__(self, CONFIG_TYPE, config_type)
        super().__init__(mapping, **kw)

    def __setitem__(self, config_id: t.Hashable, config: t.ConfigType, /):
        config.set_config_id(config_id)
        if not issubclass(config.__class__, self.CONFIG_TYPE):
            raise Issue.must_be_type('config', self.CONFIG_TYPE)
        elif config_id in self and self[config_id] is not config:
            raise Issue.cant_reassign_attribute(f'config_id={config_id!r}')
        if config_id.__class__ is str:
            object.__setattr__(self, config_id, config)
        else:
            self.__dict__[config_id] = config
