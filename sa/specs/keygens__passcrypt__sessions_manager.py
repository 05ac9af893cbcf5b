MODULE = "aiootp.keygens.passcrypt.sessions_manager"

import math
from aiootp._typing import Typing as t
from aiootp._constants import BIG, INT_BYTES
from aiootp._gentools import abytes_range, bytes_range
from aiootp.asynchs import Processes
from aiootp.commons import FrozenInstance
from aiootp.generics import canonical_pack
from aiootp.keygens.passcrypt.session_init import PasscryptSession



class PasscryptProcesses(FrozenInstance):

    def __init__(self):
        pass

    @staticmethod
    def _work_memory_prover(session: PasscryptSession):
        ram, update, digest, row_size, total_size = session
        assert total_size == len(ram)
        column_start_indexes = range(0, row_size, 336)
        row_start_indexes = [*range(0, total_size, row_size)]
        for column_start in column_start_indexes:
            for row_start in row_start_indexes:
                index = row_start + column_start
                ref_row_start = -row_start - row_size
                reflection = ref_row_start + column_start + 168
                ref_end = reflection + 168
                ref_end = ref_end if ref_end < 0 else None
                update(ram[row_start:row_start + row_size])
                ram[index:index + 168] = digest(168)
                update(ram[ref_row_start:ref_row_start + row_size])
                ram[reflection:ref_end] = digest(168)
        for iteration in range(session.cpu + 2):
            seek = 168 * iteration
            ram[seek:seek + 84] = digest(84)
            update(ram)
        return digest(168)

    @classmethod
    def _passcrypt(cls, session: PasscryptSession):
        session.prepare_session().allocate_ram()
        return cls._work_memory_prover(session)

    def spawn(self, *, passphrase, salt, aad, pepper, mb: int, cpu: int, cores: int, tag_size: int, config: t.ConfigType):
        sessions = []
        total_mb = mb.to_bytes(INT_BYTES, BIG)
        core_mb = math.ceil(mb / cores)
        for core in bytes_range(cores):
            core_aad = canonical_pack(pepper, aad, core, total_mb)
            session = PasscryptSession(passphrase, salt, aad=core_aad, mb=core_mb, cpu=cpu, cores=cores, tag_size=tag_size, config=config)
            kw = dict(session=session, probe_delay=0.001)
            sessions.append(Processes.submit(self._passcrypt, **kw))
        return sessions
