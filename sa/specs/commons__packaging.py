MODULE = "aiootp.commons.packaging"

import sys
from aiootp._typing import Typing as t
from aiootp.commons.namespaces import FrozenNamespace



def make_module(name, *, mapping: dict):
    module = t.ModuleType(name)
    module.__dict__.update(mapping)
    sys.modules[name] = module
    return FrozenNamespace(module.__dict__)


def remake_module(module: t.ModuleType, /):
    api = module.module_api
    name = api['__name__']
    return make_module(name=name, mapping=api)


def remake_subpackage(package: t.ModuleType, /):
    for name, subpackage in getattr(package, 'subpackages', {}).items():
        package.module_api[name] = remake_subpackage(subpackage)
    for name, module in getattr(package, 'modules', {}).items():
        package.module_api[name] = remake_module(module)
    return remake_module(package)
