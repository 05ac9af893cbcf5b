MODULE = "aiootp.ciphers.decipher_streams"

import io
from collections import deque
from aiootp._typing import Typing as t
from aiootp._constants import DEFAULT_AAD, DEFAULT_TTL
from aiootp._exceptions import Issue, CipherStreamIsClosed
from aiootp._gentools import apopleft, popleft, abatch, batch
from aiootp.asynchs import AsyncInit, asleep
from aiootp.ciphers.cipher_stream_properties import AuthFail, CipherStreamProperties



class DecipherStream(CipherStreamProperties):

    def __init__(self, cipher: t.CipherInterfaceType, *, salt, aad=DEFAULT_AAD, iv, ttl: int | None=DEFAULT_TTL):
        self._config = cipher._config
        self._padding = cipher._padding
        self._ttl = ttl
        self._digesting_now = self._DequePair()
        self._finalizing_now = deque()
        self._is_streaming = False
        self._result_queue = deque()
        self._buffer = buffer = deque()
        self._bytes_to_trim = self._config.INNER_HEADER_BYTES
        self._key_bundle = key_bundle = cipher._KeyAADBundle(kdfs=cipher._kdfs, salt=salt, aad=aad, iv=iv).sync_mode()
        self.shmac = cipher._StreamHMAC(key_bundle)._for_decryption()
        self._stream = cipher._Junction.bytes_decipher(popleft(buffer), shmac=self.shmac)

    @property
    def _iter_shortcuts(self):
        return (self._result_queue, self._result_queue.popleft)

    @property
    def _digest_data_shortcuts(self):
        return (self._stream.send, self._result_queue.append)

    @property
    def _buffer_shortcuts(self):
        return (self.shmac.test_next_block_id, self._buffer.append)

    def _test_timestamp(self, queue: deque[bytes]):
        try:
            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
            self._config.clock.test_timestamp(timestamp, self._ttl)
            self._is_streaming = True
        except self.TimestampExpired as error:
            self._is_streaming = False
            raise error

    def _remove_inner_header(self, queue: deque[bytes]):
        inner_header = queue[0][:self._bytes_to_trim]
        block = queue[0][self._bytes_to_trim:]
        self._bytes_to_trim -= len(inner_header)
        if block:
            queue[0] = block
        else:
            queue.popleft()

    def __iter__(self):
        MIN_STREAM_QUEUE = self._config.MIN_STREAM_QUEUE
        result_queue, pop_result = self._iter_shortcuts
        if not self._is_streaming:
            self._test_timestamp(result_queue)
        while self._bytes_to_trim and result_queue:
            self._remove_inner_header(result_queue)
        while len(result_queue) > MIN_STREAM_QUEUE:
            yield pop_result()

    def finalize(self):
        guard = self._Guard(self._digesting_now, probe_delay=1e-05)
        self._finalizing_now.append(guard)
        if guard is not self._finalizing_now[0]:
            raise CipherStreamIsClosed
        with guard:
            self.shmac.finalize()
            yield from self
            queue = self._result_queue
            footer_index = self._padding.depadding_end_index(queue[-1])
            yield from batch(b''.join(queue)[:footer_index], size=self._config.BLOCKSIZE)

    def _digest_data(self, data: t.Callable[[int], bytes], test_block_id: t.Callable[..., None], append: t.Callable[[bytes], None]):
        config = self._config
        BLOCKSIZE, BLOCK_ID_BYTES = (config.BLOCKSIZE, config.BLOCK_ID_BYTES)
        cipher, queue_result = self._digest_data_shortcuts
        while (block_id := data(BLOCK_ID_BYTES)):
            block = data(BLOCKSIZE)
            try:
                test_block_id(block_id, block)
            except self.InvalidBlockID as auth_fail:
                auth_fail.failure_state = AuthFail(block_id, block, data)
                raise auth_fail
            append(block)
            queue_result(cipher(None))

    def buffer(self, data):
        if not data or len(data) % self.PACKETSIZE:
            raise Issue.invalid_length('data', len(data))
        with self._Guard(self._digesting_now, probe_delay=1e-05):
            if self._finalizing_now:
                raise CipherStreamIsClosed
            data = io.BytesIO(data).read
            atest_block_id, append = self._buffer_shortcuts
            self._digest_data(data, atest_block_id, append)
        return self


class AsyncDecipherStream(CipherStreamProperties):
    pass
