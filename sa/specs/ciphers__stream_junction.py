MODULE = "aiootp.ciphers.stream_junction"

from aiootp._typing import Typing as t
from aiootp._constants import ENCRYPTION, DECRYPTION, ASYNC, SYNC
from aiootp._exceptions import Issue, KeyAADIssue
from aiootp.commons import FrozenInstance
from aiootp.ciphers.stream_hmac import StreamHMAC



class StreamJunction(FrozenInstance):

    @classmethod
    def bytes_encipher(cls, data: t.Datastream, *, shmac: StreamHMAC):
        shmac._key_bundle._register_shmac(shmac)
        if shmac.mode != ENCRYPTION:
            raise Issue.must_set_value('shmac', ENCRYPTION)
        elif shmac._key_bundle._mode != SYNC:
            raise KeyAADIssue.mode_isnt_correct(SYNC)
        return cls.combine_streams(data, shmac=shmac)

    @classmethod
    def bytes_decipher(cls, data: t.Datastream, *, shmac: StreamHMAC):
        shmac._key_bundle._register_shmac(shmac)
        if shmac.mode != DECRYPTION:
            raise Issue.must_set_value('shmac', DECRYPTION)
        elif shmac._key_bundle._mode != SYNC:
            raise KeyAADIssue.mode_isnt_correct(SYNC)
        return cls.combine_streams(data, shmac=shmac)
