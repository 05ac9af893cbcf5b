From f0929f034d8db3c58ee7d0e1f49e4ab629adc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:21 +0000
Subject: [PATCH 1/8] fix: decipher streams mark the TTL test as done only
 after it passed

Iterating a decipher stream before anything was buffered raised, but
left the stream marked as already streaming. The message's timestamp
was then never tested against the TTL.
---
 aiootp/ciphers/decipher_streams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..0c477e2 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -184,9 +184,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         instance.
         """
         try:
-            self._is_streaming = True
             timestamp = queue[0][self._config.TIMESTAMP_SLICE]
             await self._config.clock.atest_timestamp(timestamp, self._ttl)
+            self._is_streaming = True
         except self.TimestampExpired as error:
             self._is_streaming = False
             raise error
@@ -472,9 +472,9 @@ class DecipherStream(CipherStreamProperties):
         instance.
         """
         try:
-            self._is_streaming = True
             timestamp = queue[0][self._config.TIMESTAMP_SLICE]
             self._config.clock.test_timestamp(timestamp, self._ttl)
+            self._is_streaming = True
         except self.TimestampExpired as error:
             self._is_streaming = False
             raise error
-- 
2.43.0


From 358976316f8cd4106b10991375f31838860e6d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:21 +0000
Subject: [PATCH 2/8] fix: clearing a frozen namespace no longer empties it
 before raising

`clear` wiped the instance dictionary first and only then tried to
delete the slots, which raises for frozen types. Frozen namespaces and
config maps lost their contents although the call was refused.
---
 aiootp/commons/slots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 4ff4b12..80d55da 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -327,10 +327,11 @@ class Slots:
         """
         Deletes the instance's attribute references from its slots & dict.
         """
-        getattr(self, DICT, []).clear()
+        mapping = getattr(self, DICT, {})
         for name in self.__slots__:
             if hasattr(self, name):
                 del self[name]
+        mapping.clear()
 
 
 class OpenSlots(Slots):
-- 
2.43.0


From 9cac81337590c29ee5a1219fb0845481310bbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:21 +0000
Subject: [PATCH 3/8] fix: canonical unpacking refuses everything packing can't
 produce

Over-long padding, a truncated length field of a trailing empty item
and a blocksize field of another width were accepted, so one sequence
had several encodings. A zero blocksize raised ZeroDivisionError.
---
 aiootp/generics/canon.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 0dd0904..3590e3a 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -313,6 +313,25 @@ def test_canonical_padding(
         raise CanonicalIssue.invalid_padding()
 
 
+def test_canonical_size(
+    items: deque[bytes],
+    int_bytes: int,
+    total_size: int,
+) -> None:
+    """
+    Raises `CanonicalEncodingError` if the declared blocksize has another
+    width than `int_bytes`, or if the decoded `items` don't account for
+    all but less than one blocksize of the data's `total_size`.
+    """
+    if not items:
+        raise CanonicalIssue.missing_metadata_items()
+    elif len(items[0]) != int_bytes:
+        raise CanonicalIssue.item_length_mismatch()
+    declared_size = 1 + int_bytes + sum(int_bytes + len(i) for i in items)
+    if not 0 <= total_size - declared_size < int.from_bytes(items[0], BIG):
+        raise CanonicalIssue.invalid_padding()
+
+
 async def acanonical_unpack(items: bytes) -> deque[bytes]:
     """
     Extracts the bytes-type values that have been canonically encoded
@@ -329,6 +348,7 @@ async def acanonical_unpack(items: bytes) -> deque[bytes]:
         [item async for item in adecode_items(read, item_count, int_bytes)],
         maxlen=item_count,
     )
+    test_canonical_size(items, int_bytes, total_size)
     test_canonical_padding(read, items, total_size)
     return items
 
@@ -349,6 +369,7 @@ def canonical_unpack(items: bytes) -> deque[bytes]:
         decode_items(read, item_count, int_bytes),
         maxlen=item_count,
     )
+    test_canonical_size(items, int_bytes, total_size)
     test_canonical_padding(read, items, total_size)
     return items
 
-- 
2.43.0


From 96800cc72c8c2a58654a9211d76cfe7cd2ffe603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:21 +0000
Subject: [PATCH 4/8] fix: async salt file deletion waits for its guard without
 blocking

The coroutine entered the guard synchronously, so the event loop was
blocked, and could deadlock, while another task held the guard.
---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..2fe48ee 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From 330749da3daf6b23c33a067c9a31133d80b2aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:00 +0000
Subject: [PATCH 5/8] fix: concurrency guards release their place when a wait
 is cancelled

A task cancelled while it waited for its turn, or while leaving the
guarded block, stayed on the queue. Every later guard on that queue
then waited forever.
---
 aiootp/asynchs/guards/concurrency_guard.py | 36 +++++++++++++++++-----
 aiootp/asynchs/guards/manager.py           |  4 +--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..05190cc 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -316,6 +316,18 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _stop_waiting(self, /) -> None:
+        """
+        Takes an instance that won't get its turn anymore, such as when
+        its task is cancelled, off the queue & drops its registration.
+        """
+        if not self.is_pending():
+            return
+        if self in self.queue:
+            self.queue.remove(self)
+        if self.policy.is_exclusive():
+            self.policy.notify_off(self)
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -330,8 +342,12 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.notify_on(self)
         policy.get_in_queue(self)
 
-        while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+        try:
+            while not policy.is_free_to_run(self):
+                await asleep(self.probe_delay)
+        except BaseException:
+            self._stop_waiting()
+            raise
 
         return self
 
@@ -348,8 +364,12 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.notify_on(self)
         policy.get_in_queue(self)
 
-        while not policy.is_free_to_run(self):
-            sleep(self.probe_delay)
+        try:
+            while not policy.is_free_to_run(self):
+                sleep(self.probe_delay)
+        except BaseException:
+            self._stop_waiting()
+            raise
 
         return self
 
@@ -370,9 +390,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
         return exc_type is None
 
     def __exit__(
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..b7820dd 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -270,7 +270,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await manager._ainitialize_guard(target, self)
         try:
             return await super().__aenter__()
-        except Exception as error:
+        except BaseException as error:
             await manager._acleanup_references(target)
             raise error
 
@@ -288,7 +288,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         manager._initialize_guard(target, self)
         try:
             return super().__enter__()
-        except Exception as error:
+        except BaseException as error:
             manager._cleanup_references(target)
             raise error
 
-- 
2.43.0


From fcd4d8b6203d77d9f989f8a2a46a1e9799bfb6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:00 +0000
Subject: [PATCH 6/8] fix: new threads and processes hand their error or result
 to the caller

An exception in the worker reached the caller as an empty queue error.
A result too large for the pipe's buffer made the caller and the worker
process wait for each other forever.
---
 aiootp/asynchs/concurrency_interface.py | 46 ++++++++++++++++++-------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..65a0a50 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -80,16 +80,21 @@ class ConcurrencyInterface:
         sync `func` run in a new process / thread by storing the result
         in a shared `queue` container.
         """
-        if is_async_function(func):
-            try:
-                loop = new_event_loop()
-                run = loop.run_until_complete
-                queue.put_nowait(run(func(*args, **kwargs)))
-            finally:
-                run(loop.shutdown_asyncgens())
-                loop.close()
-        else:
-            queue.put_nowait(func(*args, **kwargs))
+        result = error = None
+        try:
+            if is_async_function(func):
+                try:
+                    loop = new_event_loop()
+                    run = loop.run_until_complete
+                    result = run(func(*args, **kwargs))
+                finally:
+                    run(loop.shutdown_asyncgens())
+                    loop.close()
+            else:
+                result = func(*args, **kwargs)
+        except Exception as exception:
+            error = exception
+        queue.put_nowait((result, error))
 
     @staticmethod
     def _run_func(
@@ -104,7 +109,12 @@ class ConcurrencyInterface:
         run in a new process / thread by storing the result in a shared
         `queue` container.
         """
-        queue.put_nowait(func(*args, **kwargs))
+        result = error = None
+        try:
+            result = func(*args, **kwargs)
+        except Exception as exception:
+            error = exception
+        queue.put_nowait((result, error))
 
     @classmethod
     async def anew(
@@ -132,10 +142,15 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
+        while task.is_alive() and queue.empty():
+            await asleep(delay)
+        result, error = queue.get_nowait()
         while task.is_alive():
             await asleep(delay)
         task.join()
-        return queue.get_nowait()
+        if error is not None:
+            raise error
+        return result
 
     @classmethod
     def new(
@@ -163,10 +178,15 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
+        while task.is_alive() and queue.empty():
+            sleep(delay)
+        result, error = queue.get_nowait()
         while task.is_alive():
             sleep(delay)
         task.join()
-        return queue.get_nowait()
+        if error is not None:
+            raise error
+        return result
 
     @staticmethod
     def _get_result(
-- 
2.43.0


From 5e0fdf10897134b341ee47b45273152b1eb7d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:37 +0000
Subject: [PATCH 7/8] fix: opening a salt path never replaces a salt made in
 the meantime

Two openers could both find the salt file missing, and the second one
then overwrote the salt the first one was already using. Salt files are
now created exclusively, and the loser of the race uses the existing
file.
---
 aiootp/_paths.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2fe48ee..3ab8b80 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -25,7 +25,7 @@ from secrets import token_bytes
 
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
-from ._exceptions import Issue
+from ._exceptions import Ignore, Issue
 from .asynchs import aos, wrap_in_executor, MultiConcurrencyGaurd
 from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
@@ -163,7 +163,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
+        async with aiofiles.open(path, "xb") as salt_file:
             await salt_file.write(salt)
         await aos.chmod(path, 0o000)
 
@@ -180,7 +180,8 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
+        with path.open("xb") as salt_file:
+            salt_file.write(salt)
         path.chmod(0o000)
 
 
@@ -310,7 +311,8 @@ async def AsyncSecureSaltPath(
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or await amake_salt_file(salt_path)
+    with Ignore(FileExistsError):
+        salt_path.is_file() or await amake_salt_file(salt_path)
     return salt_path
 
 
@@ -339,7 +341,8 @@ def SecureSaltPath(
     else:
         salt_path = find_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or make_salt_file(salt_path)
+    with Ignore(FileExistsError):
+        salt_path.is_file() or make_salt_file(salt_path)
     return salt_path
 
 
-- 
2.43.0


From 5b5f5507c56a53912753873c6b9e1dd6bb5f40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:18 +0000
Subject: [PATCH 8/8] fix: refuse emptied database files instead of reporting a
 missing value

---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..c7fd0ac 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -549,7 +549,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..afe8276 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -515,7 +515,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0

