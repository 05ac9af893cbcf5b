MODULE = "aiootp.commons.namespaces"

from aiootp._typing import Typing as t
from aiootp._exceptions import Issue
from aiootp.commons.slots import Slots



class OpenNamespace(Namespace):

    def __repr__(self, /, *, mask=False):
        return super().__repr__(mask=mask)


class FrozenNamespace(Namespace):

    def __setitem__(self, name, value: t.Any, /):
        if name in self:
            raise Issue.cant_reassign_attribute(name)
        super().__setitem__(name, value)

    def __delitem__(self, name, /):
        raise Issue.cant_deassign_attribute(name)


class OpenFrozenNamespace(FrozenNamespace):

    def __repr__(self, /, *, mask=False):
        return super().__repr__(mask=mask)


class Namespace(Slots):
    pass
