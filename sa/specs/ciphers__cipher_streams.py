MODULE = "aiootp.ciphers.cipher_streams"

import io
from collections import deque
from aiootp._typing import Typing as t
from aiootp._constants.misc import DEFAULT_AAD
from aiootp._exceptions import CipherStreamIsClosed
from aiootp._gentools import apopleft, popleft, abatch, batch
from aiootp.asynchs import AsyncInit, asleep
from aiootp.ciphers.cipher_stream_properties import CipherStreamProperties



class CipherStream(CipherStreamProperties):

    def __init__(self, cipher: t.CipherInterfaceType, *, salt: bytes | None=None, aad=DEFAULT_AAD):
        self._config = cipher._config
        self._padding = cipher._padding
        self._byte_count = 0
        self._digesting_now = self._DequePair()
        self._finalizing_now = deque()
        self._buffer = buffer = deque([self._padding.start_padding()])
        self._key_bundle = key_bundle = cipher._KeyAADBundle(kdfs=cipher._kdfs, salt=salt, aad=aad).sync_mode()
        self.shmac = cipher._StreamHMAC(key_bundle)._for_encryption()
        self._stream = cipher._Junction.bytes_encipher(popleft(buffer), shmac=self.shmac)

    @property
    def _iter_shortcuts(self):
        return (self.shmac.next_block_id, self._buffer, self._stream.send)

    @property
    def _buffer_shortcuts(self):
        return (self._buffer, self._buffer.append)

    def __iter__(self):
        MIN_STREAM_QUEUE = self._config.MIN_STREAM_QUEUE
        next_block_id, buffer, cipher = self._iter_shortcuts
        while len(buffer) > MIN_STREAM_QUEUE:
            block = cipher(None)
            yield (next_block_id(block), block)

    def finalize(self):
        guard = self._Guard(self._digesting_now, probe_delay=1e-05)
        self._finalizing_now.append(guard)
        if guard is not self._finalizing_now[0]:
            raise CipherStreamIsClosed
        with guard:
            end_padding = self._padding.end_padding(self._byte_count)
            final_blocks = batch(self._buffer.pop() + end_padding, size=self._config.BLOCKSIZE)
            for block in final_blocks:
                self._buffer.append(block)
            while self._buffer:
                block = self._stream.send(None)
                block_id = self.shmac.next_block_id(block)
                yield (block_id, block)
            self.shmac.finalize()

    def _digest_data(self, data: t.Callable[[int], bytes], buffer: deque[bytes], append: t.Callable[[bytes], None]):
        BLOCKSIZE = self._config.BLOCKSIZE
        if buffer and len(buffer[-1]) != BLOCKSIZE:
            missing_bytes = BLOCKSIZE - len(buffer[-1])
            chunk = data(missing_bytes)
            buffer[-1] += chunk
            if len(chunk) != missing_bytes:
                return
        while True:
            block = data(BLOCKSIZE)
            append(block)
            if len(block) != BLOCKSIZE:
                break

    def buffer(self, data):
        with self._Guard(self._digesting_now, probe_delay=1e-05):
            if self._finalizing_now:
                raise CipherStreamIsClosed
            self._byte_count += len(data)
            data = io.BytesIO(data).read
            _buffer, append = self._buffer_shortcuts
            self._digest_data(data, _buffer, append)
        return self


class AsyncCipherStream(CipherStreamProperties):
    pass
