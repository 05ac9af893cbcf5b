MODULE = "aiootp.commons.typed_slots"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp._exceptions import MissingDeclaredVariables
from aiootp._exceptions import OverspecifiedVariable
from aiootp._exceptions import TypeUncheckableAtRuntime
from aiootp.commons.slots import Slots, OpenFrozenSlots



class TypedSlots(Slots):
    _UNMAPPED_ATTRIBUTES = frozenset({'slots_types'})
    _DIRLESS_ATTRIBUTES = frozenset({'slots_types'})
    _RESTRICTED_ATTRIBUTES = frozenset({'slots_types'})
    slots_types = dict()

    @classmethod
    def _copy_acceptable_type_declarations(cls, /, base: type, slots_types: t.Mapping[str, t.Any]):
        if not issubclass(base, TypedSlots):
            return
        for name, value in base.slots_types.items():
            try:
                isinstance(value, value)
            except TypeError as error:
                raise TypeUncheckableAtRuntime(name, value) from error
            if name == '__dict__':
                raise OverspecifiedVariable('__dict__')
            elif name not in cls._slots_set:
                kw = dict(found_in='slots_types', missed='__slots__')
                raise MissingDeclaredVariables(name, **kw)
            slots_types[name] = value

    @classmethod
    def _make_frozen_class_slots_types_container(cls, slots_types: t.Mapping[str, type], /):
        cls_name = f'{cls.__qualname__}SlotsTypes'
        cls_dict = dict(__slots__=tuple(slots_types), __module__=__name__)
        container = type(cls_name, (OpenFrozenSlots,), cls_dict)
        return container(**slots_types)

    @classmethod
    def _make_frozen_class_slots_types(cls, /):
        slots_types = {}
        for base in reversed(cls.__mro__):
            cls._copy_acceptable_type_declarations(base, slots_types)
        diff = set(cls.__slots__).difference({'__dict__'}).symmetric_difference(slots_types)
        if diff:
            kw = dict(found_in='__slots__', missed='slots_types')
            raise MissingDeclaredVariables(*diff, **kw)
        return cls._make_frozen_class_slots_types_container(slots_types)

    def __init_subclass__(cls, /, *a: t.Any, **kw: t.Any):
        super().__init_subclass__(*a, **kw)
        cls.slots_types = cls._make_frozen_class_slots_types()

    def _validate_type(self, name, value: t.Any, /):
        if name not in self.slots_types:
            return
        value_type = self.slots_types[name]
        if not isinstance(value, value_type):
            raise Issue.must_be_type(name, value_type)

    def __setitem__(self, name, value: t.Any, /):
        self._validate_type(name, value)
        super().__setitem__(name, value)


class OpenTypedSlots(TypedSlots):
    slots_types = dict()

    def __repr__(self, /, *, mask=False):
        return super().__repr__(mask=mask)


class FrozenTypedSlots(TypedSlots):
    slots_types = dict()

    def __setitem__(self, name, value: t.Any, /):
        if name in self:
            raise Issue.cant_reassign_attribute(name)
        super().__setitem__(name, value)

    def __delitem__(self, name, /):
        raise Issue.cant_deassign_attribute(name)


class OpenFrozenTypedSlots(FrozenTypedSlots):
    slots_types = dict()

    def __repr__(self, /, *, mask=False):
        return super().__repr__(mask=mask)
