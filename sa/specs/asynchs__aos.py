MODULE = "aiootp.asynchs.aos"

import os
import warnings
from aiootp._typing import Typing as t
from aiootp.asynchs.loops import asleep, wrap_in_executor



def _not_implemented_placeholder(name):

    async def function_not_implemented(*_: t.Any, **__: t.Any):
        await asleep()
        message = f'`{name}` function not supported by OS.'
        warnings.warn(message)
    return function_not_implemented
defs = {}

for name in __all__:
    if hasattr(os, name):
        defs[name] = wrap_in_executor(getattr(os, name))
    else:
        defs[name] = _not_implemented_placeholder(name)
globals().update(defs)
