From 1e95c0712a091145354487c3a2a9ebb925692631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 01/15] fix: test the time-to-live again when a first stream
 read failed

Reading a decipher stream before any packet was buffered raised an
IndexError but still marked the stream as started, so the expiry test
was skipped for every later read.
---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From 22cd9d8199a3f8801fb0808a7934d59bfe2405e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:49 +0000
Subject: [PATCH 02/15] fix: refuse packed data that declares a block size of
 zero

Unpacking such data raised ZeroDivisionError instead of the documented
canonical encoding error.
---
 aiootp/generics/canon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 0dd0904..2c13285 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -307,7 +307,7 @@ def test_canonical_padding(
         pad = items.popleft()
     except IndexError as error:
         raise CanonicalIssue.missing_metadata_items() from error
-    if total_size % blocksize:
+    if not blocksize or total_size % blocksize:
         raise CanonicalIssue.data_length_blocksize_mismatch()
     elif len(pad) != 1 or not set(pad).issuperset(read()):
         raise CanonicalIssue.invalid_padding()
-- 
2.43.0


From 9bc37fa10bd5dab96e7bad775ff29911e358aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:23 +0000
Subject: [PATCH 03/15] fix: refuse packed data whose last length field is cut
 short

A truncated length field was read as a smaller number, so damaged data
could unpack to items that were never packed.
---
 aiootp/generics/canon.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 2c13285..de39ec9 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -265,9 +265,10 @@ async def adecode_items(
     the number of bytes that were used to encode item lengths.
     """
     async for _ in arange(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        size_blob = read(int_bytes)
+        item_size = int.from_bytes(size_blob, BIG)
         item = read(item_size)
-        if len(item) != item_size:
+        if len(size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
@@ -286,9 +287,10 @@ def decode_items(
     the number of bytes that were used to encode item lengths.
     """
     for _ in range(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        size_blob = read(int_bytes)
+        item_size = int.from_bytes(size_blob, BIG)
         item = read(item_size)
-        if len(item) != item_size:
+        if len(size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
-- 
2.43.0


From 505e64c54f0c901942a5f399924fefad21a2e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:55 +0000
Subject: [PATCH 04/15] fix: refuse packed data that declares an item length
 past the index range

Unpacking such data raised OverflowError instead of the documented
canonical encoding error.
---
 aiootp/generics/canon.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index de39ec9..5f2d562 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -267,7 +267,10 @@ async def adecode_items(
     async for _ in arange(item_count):
         size_blob = read(int_bytes)
         item_size = int.from_bytes(size_blob, BIG)
-        item = read(item_size)
+        try:
+            item = read(item_size)
+        except OverflowError as error:
+            raise CanonicalIssue.item_length_mismatch() from error
         if len(size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
@@ -289,7 +292,10 @@ def decode_items(
     for _ in range(item_count):
         size_blob = read(int_bytes)
         item_size = int.from_bytes(size_blob, BIG)
-        item = read(item_size)
+        try:
+            item = read(item_size)
+        except OverflowError as error:
+            raise CanonicalIssue.item_length_mismatch() from error
         if len(size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
-- 
2.43.0


From 83fe1520a5255f74c58b3f1b070bb144874eb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:53 +0000
Subject: [PATCH 05/15] fix: end azip at once when it is given no iterables

Like builtins.zip, which it mirrors; it yielded empty lists forever.
---
 aiootp/_gentools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_gentools.py b/aiootp/_gentools.py
index 855a95c..7a8612d 100755
--- a/aiootp/_gentools.py
+++ b/aiootp/_gentools.py
@@ -243,7 +243,7 @@ async def azip(
     """
     coroutines = [aunpack(iterable).__anext__ for iterable in iterables]
     try:
-        while True:
+        while coroutines:
             yield [await coroutine() for coroutine in coroutines]
     except (StopAsyncIteration, StopIteration):
         pass
-- 
2.43.0


From 730dfae75907f7597708b75710c8d944dfa98c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:49 +0000
Subject: [PATCH 06/15] fix: count whole time units with integer arithmetic

Dividing the elapsed nanoseconds as floats lost precision: nanosecond
clocks were off by up to 8 ns for current times, and every other unit was
reported one too high in the last nanoseconds before a unit was complete.
---
 aiootp/asynchs/clocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..984f1a3 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,9 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        elapsed = time_ns() - epoch
+        units = abs(elapsed) // int(unit.as_ns)
+        return units if elapsed >= 0 else -units
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From a211008c672d7c16a624ea0b4709c40e3398c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:54 +0000
Subject: [PATCH 07/15] fix: forget the target when an already used guard is
 entered again

Entering a managed guard a second time raises, but the guard had already
been added to the target's users. Nothing removed it afterwards, so the
manager kept the target forever.
---
 aiootp/asynchs/guards/manager.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..6a8f77f 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -452,8 +452,11 @@ class MultiConcurrencyGaurd(FrozenTypedSlots):
         consistent with the other running instances of the same target.
         """
         with self._resource_lock:
-            (state := self.targets[target]).users.append(guard)
-            guard._set_deques(state.deques)
+            if (state := self.targets.get(target)) is None:
+                state = self.targets._TargetState()
+            guard._set_deques(state.deques)  # refuses already used guards
+            self.targets[target] = state
+            state.users.append(guard)
 
     def _initialize_guard(
         self,
@@ -466,8 +469,11 @@ class MultiConcurrencyGaurd(FrozenTypedSlots):
         consistent with the other running instances of the same target.
         """
         with self._resource_lock:
-            (state := self.targets[target]).users.append(guard)
-            guard._set_deques(state.deques)
+            if (state := self.targets.get(target)) is None:
+                state = self.targets._TargetState()
+            guard._set_deques(state.deques)  # refuses already used guards
+            self.targets[target] = state
+            state.users.append(guard)
 
     def _pass_self_references(
         self,
-- 
2.43.0


From 6e5b19d37e0b17e83b1e8a70f3067c8cdf158cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:10 +0000
Subject: [PATCH 08/15] fix: keep the contents of a frozen container when
 clearing it is refused

---
 aiootp/commons/slots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 4ff4b12..9fa01cd 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -327,7 +327,8 @@ class Slots:
         """
         Deletes the instance's attribute references from its slots & dict.
         """
-        getattr(self, DICT, []).clear()
+        for name in tuple(getattr(self, DICT, ())):
+            del self[name]
         for name in self.__slots__:
             if hasattr(self, name):
                 del self[name]
-- 
2.43.0


From 4affc84f3a48ea98c3b857838044bf7089a12745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:22 +0000
Subject: [PATCH 09/15] fix: wait asynchronously before deleting a salt file

---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..2fe48ee 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From f695d9c93ef964f569f0a586e6651dd7d9b38179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:34 +0000
Subject: [PATCH 10/15] fix: read salt files exclusively, as reading changes
 their permissions

---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2fe48ee..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From 6126c8b2a387ec188e9ad46ccf50caa849ddd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:47 +0000
Subject: [PATCH 11/15] fix: take permissions off a new salt file before the
 salt is written

---
 aiootp/_paths.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..a30b555 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -164,8 +164,8 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
         async with aiofiles.open(path, "wb") as salt_file:
+            await aos.chmod(path, 0o000)
             await salt_file.write(salt)
-        await aos.chmod(path, 0o000)
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -180,8 +180,9 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
-        path.chmod(0o000)
+        with path.open("wb") as salt_file:
+            path.chmod(0o000)
+            salt_file.write(salt)
 
 
 async def aread_salt_file(path: Path) -> bytes:
-- 
2.43.0


From 16837d4a3cde5c742388bdfba3c1faf464906629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:21 +0000
Subject: [PATCH 12/15] fix: take permissions off a salt file again when
 deleting it fails

---
 aiootp/_paths.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index a30b555..ec74da1 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -271,7 +271,11 @@ async def adelete_salt_file(path: Path) -> None:
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
         await aos.chmod(path, 0o600)
-        await aos.remove(path)
+        try:
+            await aos.remove(path)
+        except OSError:
+            await aos.chmod(path, 0o000)
+            raise
 
 
 def delete_salt_file(path: Path) -> None:
@@ -283,7 +287,11 @@ def delete_salt_file(path: Path) -> None:
     with guards.guard(target):
         path = Path(path)
         path.chmod(0o600)
-        path.unlink(path)
+        try:
+            path.unlink(path)
+        except OSError:
+            path.chmod(0o000)
+            raise
 
 
 async def AsyncSecureSaltPath(
-- 
2.43.0


From 9a57c88b7d3938f2c82d75c44378d1d57efe94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:27 +0000
Subject: [PATCH 13/15] fix: delete no foreign files named 0 or 1 along with a
 database

---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..21308cb 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -744,7 +744,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         for metatag in self.metatags:
             sub_db = await self.ametatag(metatag, preload=False)
             await sub_db.adelete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
         await self._adelete_profile_tokens()
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..2995c8c 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -692,7 +692,7 @@ class Database(DatabaseProperties):
         """
         for metatag in self.metatags:
             self.metatag(metatag, preload=False).delete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
         self._delete_profile_tokens()
-- 
2.43.0


From f6cdc9a597dd58ce8744eac14066e7cf65e526f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:55 +0000
Subject: [PATCH 14/15] fix: raise when a tag's file was emptied instead of
 reporting no value

---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 21308cb..9559e24 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -549,7 +549,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 2995c8c..fb2bd21 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -515,7 +515,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0


From 2b06d5619bbb53cd5ce8f448aca4bd2be3cbf2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:22 +0000
Subject: [PATCH 15/15] fix: collect a worker's result while it runs so large
 results cannot block it

---
 aiootp/asynchs/concurrency_interface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..5e246bc 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -132,10 +132,11 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             await asleep(delay)
+        result = queue.get_nowait()
         task.join()
-        return queue.get_nowait()
+        return result
 
     @classmethod
     def new(
@@ -163,10 +164,11 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             sleep(delay)
+        result = queue.get_nowait()
         task.join()
-        return queue.get_nowait()
+        return result
 
     @staticmethod
     def _get_result(
-- 
2.43.0

