MODULE = "aiootp.commons.instances"

from os import linesep as sep
from aiootp._typing import Typing as t
from aiootp._exceptions import Issue



class FrozenInstance:

    def __init__(self, mapping: t.Mapping[str, t.Any]={}, /, **kw: t.Any):
        for name, value in dict(mapping, **kw).items():
            setattr(self, name, value)

    def __repr__(self, /):
        has = lambda name: hasattr(self, name)
        get = lambda name: getattr(self, name).__class__
        body = f',{sep}    '.join((f'{name}={(f'<set>{get(name)}' if has(name) else '<unset>')}' for cls in self.__class__.__mro__ for name in getattr(cls, '__slots__', ()) if str(name[0]) != '_'))
        start = f'{sep}    ' if body else ''
        end = f',{sep}' if body else ''
        return f'{self.__class__.__qualname__}({start}{body}{end})'

    def __setattr__(self, name, value: t.Any, /):
        if hasattr(self, name):
            raise Issue.cant_reassign_attribute(name)
        object.__setattr__(self, name, value)

    def __delattr__(self, name, /):
        raise Issue.cant_deassign_attribute(name)
