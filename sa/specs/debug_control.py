MODULE = "aiootp._debug_control"

import warnings
from aiootp._typing import Typing as t



class DebugControl:
    _DEBUG_MODE = False
    _switches = []

    @classmethod
    def is_debugging(cls, /):
        return cls._DEBUG_MODE

    @classmethod
    def enable_debugging(cls, /, *, silence_warnings=False):
        if not silence_warnings:
            warnings.warn(cls.__doc__)
        if not cls._DEBUG_MODE:
            cls._DEBUG_MODE = True
            for toggle in cls._switches:
                toggle()

    @classmethod
    def disable_debugging(cls, /):
        if cls._DEBUG_MODE:
            cls._DEBUG_MODE = False
            for toggle in cls._switches:
                toggle()
