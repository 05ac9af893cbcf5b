MODULE = "aiootp.commons.slots"

import asyncio
from os import linesep as sep
from aiootp._typing import Typing as t
from aiootp._constants import OMITTED
from aiootp._debug_control import DebugControl
from aiootp._exceptions import Issue
from aiootp._gentools import collate

DICT = '__dict__'
SLOTS = '__slots__'
UNMAPPED_ATTRIBUTES = '_UNMAPPED_ATTRIBUTES'
DIRLESS_ATTRIBUTES = '_DIRLESS_ATTRIBUTES'
RESTRICTED_ATTRIBUTES = '_RESTRICTED_ATTRIBUTES'


class Slots:
    _UNMAPPED_ATTRIBUTES = frozenset({DICT})
    _DIRLESS_ATTRIBUTES = frozenset({UNMAPPED_ATTRIBUTES, DIRLESS_ATTRIBUTES, RESTRICTED_ATTRIBUTES, 'keys', 'values', 'items', 'update', 'clear'})
    _RESTRICTED_ATTRIBUTES = frozenset({'keys', 'values', 'items', 'update', 'clear'})

    def __init_subclass__(cls, /, *a: t.Any, **kw: t.Any):
        super().__init_subclass__(*a, **kw)
        for collection_type, collection in ((tuple, SLOTS), (frozenset, UNMAPPED_ATTRIBUTES), (frozenset, DIRLESS_ATTRIBUTES), (frozenset, RESTRICTED_ATTRIBUTES)):
            attrs = collection_type({name: None for subcls in cls.__mro__ for name in getattr(subcls, collection, ())})
            setattr(cls, collection, attrs)
        conflicts = cls._RESTRICTED_ATTRIBUTES.intersection(cls.__slots__)
        if conflicts:
            raise Issue.slots_conflicts_with_class_variables((*conflicts,))
        cls._slots_set = frozenset(cls.__slots__)

    def __init__(self, mapping: t.Mapping[t.Hashable, t.Any]={}, /, **kw: t.Any):
        self.update(mapping, **kw)

    def __dir__(self, /):
        dirless_attributes = self._DIRLESS_ATTRIBUTES
        return [name for name in object.__dir__(self) if name not in dirless_attributes]

    def __bool__(self, /):
        return any((1 for name in self))

    def __len__(self, /):
        return sum((1 for name in self))

    def __contains__(self, name: t.Hashable, /):
        in_slots = name in self._slots_set
        in_dict = name in getattr(self, DICT, ())
        return in_slots and hasattr(self, name) or in_dict

    def __setattr__(self, name, value: t.Any, /):
        self[name] = value

    def __delattr__(self, name, /):
        del self[name]

    def __setitem__(self, name, value: t.Any, /):
        if name in self._RESTRICTED_ATTRIBUTES:
            raise Issue.cant_reassign_attribute(name)
        elif name.__class__ is str:
            object.__setattr__(self, name, value)
        else:
            self.__dict__[name] = value

    def __getitem__(self, name, /):
        if name.__class__ is str:
            return getattr(self, name)
        else:
            return self.__dict__[name]

    def __delitem__(self, name, /):
        if name.__class__ is str:
            object.__delattr__(self, name)
        else:
            del self.__dict__[name]

    def __repr__(self, /, *, mask=True):
        cls = self.__class__
        if mask and (not DebugControl.is_debugging()):

            def show(value: t.Any):
                return f'{OMITTED}{value.__class__}'
        else:

            def show(value: t.Any):
                return repr(value)
        start = f'{sep}    ' if self else ''
        on = f',{sep}    ' if self else ', '
        body = on.join((f'{name}={show(value)}' for name, value in self.items() if str(name)[0] != '_'))
        end = f',{sep}' if self else ''
        return f'{cls.__qualname__}({start}{body}{end})'

    def __iter__(self, /):
        unmapped_attributes = self._UNMAPPED_ATTRIBUTES
        for name in collate(self.__slots__, getattr(self, DICT, ())):
            if name in self and name not in unmapped_attributes:
                yield name

    def keys(self, /):
        yield from self

    def values(self, /):
        for name in self:
            yield self[name]

    def items(self, /):
        for name in self:
            yield (name, self[name])

    def update(self, mapping: t.Mapping[t.Hashable, t.Any]={}, /, **kw: t.Any):
        for name, value in dict(mapping, **kw).items():
            self[name] = value

    def clear(self, /):
        mapping = getattr(self, DICT, {})
        for name in self.__slots__:
            if hasattr(self, name):
                del self[name]
        mapping.clear()


class OpenSlots(Slots):

    def __repr__(self, /, *, mask=False):
        return super().__repr__(mask=mask)


class FrozenSlots(Slots):

    def __setitem__(self, name, value: t.Any, /):
        if name in self:
            raise Issue.cant_reassign_attribute(name)
        super().__setitem__(name, value)

    def __delitem__(self, name, /):
        raise Issue.cant_deassign_attribute(name)


class OpenFrozenSlots(FrozenSlots):

    def __repr__(self, /, *, mask=False):
        return super().__repr__(mask=mask)
