MODULE = "aiootp._constants"

import asyncio
from aiootp._typing import Typing as t
from aiootp._constants.misc import *
from aiootp._constants.datasets import *



class NamespaceMapping(t.SimpleNamespace):

    def __init__(self, mapping: t.Mapping[str, t.Any]={}, **kwargs: t.Any):
        super().__init__(**kwargs)
        self.__dict__.update(mapping)

    def __getitem__(self, name, /):
        return self.__dict__[name]

    def __setitem__(self, name, value: t.Any, /):
        self.__dict__[name] = value

    def __delitem__(self, name, /):
        del self.__dict__[name]

    def __contains__(self, name, /):
        return name in self.__dict__

    def __len__(self, /):
        return len(self.__dict__)

    def __iter__(self, /):
        yield from self.__dict__

    def keys(self, /):
        yield from self.__dict__

    def values(self, /):
        yield from self.__dict__.values()

    def items(self, /):
        yield from self.__dict__.items()

    def update(self, mapping: t.Mapping[str, t.Any]={}, /, **kw: t.Any):
        self.__dict__.update(mapping, **kw)

    def clear(self, /):
        self.__dict__.clear()


def collect_non_private_constants(mapping: t.Mapping[str, t.Any]):
    return {name: value for name, value in mapping.items() if name.isupper() and (not name.startswith('_'))}
