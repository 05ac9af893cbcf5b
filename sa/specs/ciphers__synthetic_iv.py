MODULE = "aiootp.ciphers.synthetic_iv"

from aiootp._typing import Typing as t
from aiootp._constants import ENCRYPTION
from aiootp._exceptions import Issue
from aiootp.commons import FrozenInstance



class SyntheticIV(FrozenInstance):

    @classmethod
    def validated_transform(cls, datastream: t.Datastream, keystream: t.Callable[[bytes], bytes], shmac: t.StreamHMACType):
        try:
            block = datastream.send(None)
        except StopIteration as error:
            raise Issue.stream_is_empty() from error
        if shmac._mode == ENCRYPTION:
            return cls._unique_cipher(block, keystream, shmac)
        else:
            return cls._unique_decipher(block, keystream, shmac)
