From a6871fc18c634747b441d9f243a7e177b0641b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 001/106] fix: count the octets of grain data when encoding it
 in a GSF file

The block sizes came from the number of elements in the data object, and from the
length of data that had not been loaded, which made the file unreadable.
---
 mediagrains/gsf.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7aff1fc..accd937 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2262,6 +2262,15 @@ class GSFEncoderSegment(object):
     def encode_grain(self, grain: Grain) -> bytes:
         gbhd_size = self._gbhd_size_for_grain(grain)
 
+        # The sizes written must count the octets of the data, which is not always the same as the number of elements
+        # in the grain's data object.
+        if grain.data is not None:
+            grain_data = bytes(grain.data)
+        elif grain.length > 0:
+            raise GSFEncodeError("Cannot encode a grain with data that has not been loaded")
+        else:
+            grain_data = b""
+
         encode_ts_f = _encode_ts
         version_7_deprecated_bytes = b""
         if self._parent is not None and self._parent.major == 7:
@@ -2270,7 +2279,7 @@ class GSFEncoderSegment(object):
 
         data = (
             b"grai" +
-            _encode_uint(10 + gbhd_size + 8 + grain.length, 4) +
+            _encode_uint(10 + gbhd_size + 8 + len(grain_data), 4) +
             _encode_uint(self.local_id, 2) +
 
             b"gbhd" +
@@ -2315,10 +2324,8 @@ class GSFEncoderSegment(object):
 
         data += (
             b"grdt" +
-            _encode_uint(8 + grain.length, 4))
-
-        if grain.data is not None:
-            data += bytes(grain.data)
+            _encode_uint(8 + len(grain_data), 4) +
+            grain_data)
 
         self._write_count += 1
 
-- 
2.43.0


From 13eded57f828eb74deafbba50c6b584424fa4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 002/106] fix: guard an asynchronously open encoder like a
 synchronous one

---
 mediagrains/gsf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index accd937..fc6aead 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1625,6 +1625,10 @@ class OpenGSFEncoderBase(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
+        if self._active_dump:
+            raise GSFEncodeAddToActiveDump(
+                "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
+
         if local_id is None:
             local_id = self._next_local
         if local_id >= self._next_local:
@@ -1635,10 +1639,6 @@ class OpenGSFEncoderBase(object):
         if id is None:
             id = uuid1()
 
-        if self._active_dump:
-            raise GSFEncodeAddToActiveDump(
-                "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
-
         seg = GSFEncoderSegment(id, local_id, tags=tags, parent=self)
         self._segments[local_id] = seg
         return seg
@@ -2017,7 +2017,7 @@ class GSFEncoder(object):
 
     def add_tag(self, key: str, value: str):
         """Add a tag to the file"""
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._open_async_encoder is not None:
             raise GSFEncodeAddToActiveDump("Cannot add a new tag to an encoder that is currently dumping")
 
         self._tags.append(GSFEncoderTag(key, value))
@@ -2029,7 +2029,7 @@ class GSFEncoder(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._open_async_encoder is not None:
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
@@ -2071,6 +2071,8 @@ class GSFEncoder(object):
         """
         if self._open_encoder is not None:
             self._open_encoder.add_grains(grains, segment_id, segment_local_id)
+        elif self._open_async_encoder is not None:
+            self._open_async_encoder._get_segment(segment_id, segment_local_id).add_grains(grains)
         else:
             if segment_local_id is None:
                 segments = sorted([
-- 
2.43.0


From 58713f7392baca41baa0d53a095e09cded7b0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 003/106] fix: write grains added to a segment during an
 asynchronous dump

---
 mediagrains/gsf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index fc6aead..136d618 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1827,11 +1827,18 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._open_file is not None and self._active_dump:
+            await self._write_pending_grains()
             for grain in grains:
                 await self._open_file.write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
+    async def _write_pending_grains(self) -> None:
+        """Write the grains which were added since the header was written by way of a call that cannot write them"""
+        data = self._encode_all_grains()
+        if data:
+            await self._open_file.write(data)
+
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
             self._open_file.seek(0)
@@ -1860,6 +1867,9 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                                     self._encode_all_grains())
 
     async def _end_dump(self):
+        if self._active_dump:
+            await self._write_pending_grains()
+
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
                 curpos = self._open_file.tell()
-- 
2.43.0


From 2cf7b62a8a8b62070e21849777f90c14fea14b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 004/106] fix: let an encoder dump again: count each dump's own
 grains and release its segments

---
 mediagrains/gsf.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 136d618..6d4dca5 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1686,6 +1686,7 @@ class OpenGSFEncoderBase(object):
         offsets = []
 
         for seg in self._segments.values():
+            seg._start_dump(self)
             (seg_data, offset) = seg._encode_header(all_at_once=all_at_once)
             offsets.append((seg, len(data) + offset))
             data += seg_data
@@ -1779,6 +1780,9 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
                             _encode_uint(0, 4))
             self._active_dump = False
 
+        for seg in self._segments.values():
+            seg._end_dump()
+
 
 class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
     def __init__(self,
@@ -1885,6 +1889,9 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
             self._active_dump = False
 
+        for seg in self._segments.values():
+            seg._end_dump()
+
 
 class SegmentDict(TypedDict, total=False):
     id: UUID
@@ -2229,8 +2236,17 @@ class GSFEncoderSegment(object):
     def get_write_count(self) -> int:
         return self._write_count
 
-    def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
+    def _start_dump(self, parent: OpenGSFEncoderBase):
+        """Each dump counts the grains written in it, and is made by the encoder which is open now"""
+        self._parent = parent
+        self._write_count = 0
+        self._count_pos = -1
         self._active_dump = True
+
+    def _end_dump(self):
+        self._active_dump = False
+
+    def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
         data = (
             b"segm" +
             _encode_uint(self.segm_block_size, 4) +
-- 
2.43.0


From 80a51a52c64785d644114ec748263f1437eb3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 005/106] fix: pass the decoder options given to gsf.loads to
 the decoder

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 6d4dca5..cdf0a71 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -101,7 +101,7 @@ def loads(s: bytes,
     if parse_grain is None:
         parse_grain = GrainFactory
 
-    return load(BytesIO(s), cls=cls, parse_grain=parse_grain)
+    return load(BytesIO(s), cls=cls, parse_grain=parse_grain, **kwargs)
 
 
 @overload
-- 
2.43.0


From f3448b5223ede14e0b814d5f80e9fdb434701000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 006/106] fix: leave an asynchronous GSF session without
 failing when grains are loaded on exit

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index cdf0a71..baa4243 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1096,7 +1096,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
-        for (key, grain) in self._unloaded_lazy_grains.items():
+        for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
 
     async def _load_unused_lazy_loaders(self):
-- 
2.43.0


From 5d0fb136e84a1a0ea15ca18673667b1e6e0c96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 007/106] fix: load the payload of an event grain when it is
 awaited

---
 mediagrains/grains/EventGrain.py | 13 +++++++++++++
 mediagrains/grains/Grain.py      |  8 ++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index d90ce74..b183e66 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -3,6 +3,8 @@ from fractions import Fraction
 from inspect import isawaitable
 
 from typing import (
+    Any,
+    Generator,
     List,
     Union,
     SupportsBytes,
@@ -184,6 +186,16 @@ append(path, pre=None, post=None)
                            'topic': self.topic,
                            'data': [dict(datum) for datum in self.event_data]}).encode('utf-8')
 
+    def __await__(self) -> Generator[Any, None, bytes]:
+        async def __inner():
+            if self._data_fetcher_coroutine is not None:
+                data = await self._data_fetcher_coroutine
+                # Another task may have populated the grain in the mean time
+                if data is not None and self._data_fetcher_coroutine is not None:
+                    self.data = bytes(data)
+            return self.data
+        return __inner().__await__()
+
     @data.setter
     def data(self, value: Union[str, bytes]):
         if not isinstance(value, str):
@@ -203,6 +215,7 @@ append(path, pre=None, post=None)
             if 'post' in datum:
                 d['post'] = datum['post']
             self.meta['grain']['event_payload']['data'].append(d)
+        self._data_fetcher_coroutine = None
 
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index b438d44..d6bed25 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -680,18 +680,18 @@ media_rate
 
     @property
     def length(self) -> int:
-        if hasattr(self.data, "__len__"):
+        if self._data is None and self._data_fetcher_coroutine is not None:
+            return self._data_fetcher_length
+        elif hasattr(self.data, "__len__"):
             return len(cast(Sized, self.data))
         elif hasattr(self.data, "__bytes__"):
             return len(bytes(cast(SupportsBytes, self.data)))
-        elif self.data is None and self._data_fetcher_coroutine is not None:
-            return self._data_fetcher_length
         else:
             return 0
 
     @length.setter
     def length(self, L: int) -> None:
-        if self.data is None and self._data_fetcher_coroutine is not None:
+        if self._data is None and self._data_fetcher_coroutine is not None:
             self._data_fetcher_length = L
         else:
             raise AttributeError
-- 
2.43.0


From 6c9fe4cc4ee15b9357e30bdd2ed49c3d93b9eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 008/106] fix: let tasks load deferred grain data while other
 tasks read the same GSF file

---
 mediagrains/gsf.py | 74 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index baa4243..85868ed 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -32,9 +32,12 @@ from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR
 import warnings
 
+from asyncio import Lock
 from inspect import isawaitable
 
 from typing import (
+    Any,
+    Generator,
     Optional,
     Iterable,
     Tuple,
@@ -46,6 +49,7 @@ from typing import (
     Type,
     IO,
     Sequence,
+    AsyncGenerator,
     AsyncIterable,
     Awaitable,
     overload,
@@ -1030,6 +1034,37 @@ class BaseGSFDecoderSession(object):
         return cast(GrainMetadataDict, meta)
 
 
+class _DeferredGrainData():
+    """The data of a grain in a seekable file, which is read when it is first awaited.
+
+    May be awaited any number of times, by any number of tasks.
+    """
+    def __init__(self, parent: "GSFAsyncDecoderSession", key: int, pos: int, length: int, load_on_exit: bool):
+        self._parent = parent
+        self._key = key
+        self._pos = pos
+        self._length = length
+        self._load_on_exit = load_on_exit
+        self._data: Optional[bytes] = None
+
+    def __await__(self) -> Generator[Any, None, Optional[bytes]]:
+        return self._load().__await__()
+
+    async def _load(self) -> Optional[bytes]:
+        # The position of the file is shared with the other grains, and with the reading of further grains
+        async with self._parent._file_lock:
+            if self._data is None and (self._load_on_exit or not self._parent._exiting):
+                file_data = self._parent.file_data
+                oldpos = file_data.tell()
+                file_data.seek(self._pos)
+                try:
+                    self._data = await file_data.read(self._length)
+                finally:
+                    file_data.seek(oldpos)
+                self._parent._remove_lazy_grain(self._key)
+            return self._data
+
+
 class GSFAsyncDecoderSession(BaseGSFDecoderSession):
     def __init__(self,
                  parse_grain: ParseGrainType,
@@ -1048,6 +1083,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         self._exiting = False
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
         self._next_lazy_grain_number = 0
+        self._file_lock = Lock()
 
         self._sync_compatibility_mode = sync_compatibility_mode
         self._support_concatenation = support_concatenation
@@ -1121,23 +1157,24 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :yields: (Grain, local_id) tuple for each grain
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
-        async def _read_out_of_order(parent: GSFAsyncDecoderSession,
-                                     key: int,
-                                     file_data: OpenAsyncBinaryIO,
-                                     pos: int,
-                                     length: int,
-                                     load_on_exit=False) -> Optional[bytes]:
-            if load_on_exit or not parent._exiting:
-                parent._remove_lazy_grain(key)
-
-                oldpos = file_data.tell()
-                file_data.seek(pos)
-                data = await file_data.read(length)
-                file_data.seek(oldpos)
-                return data
-            else:
-                return None
-
+        grains = self._grains(local_ids, loading_mode)
+        try:
+            while True:
+                # Grains' data may be loaded by other tasks while this one reads, and they share the file's position
+                async with self._file_lock:
+                    try:
+                        grain = await grains.__anext__()
+                    except StopAsyncIteration:
+                        return
+                yield grain
+        finally:
+            await grains.aclose()
+
+    async def _grains(self,
+                      local_ids: Optional[Sequence[int]],
+                      loading_mode: GrainDataLoadingMode
+                      ) -> AsyncGenerator[Tuple[Grain, int], None]:
+        """Does the work of `grains`, which must hold the file's lock while it does."""
         have_concatenation = False
 
         while True:
@@ -1183,9 +1220,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                         # It will be awaited when the data is actually needed.
                                         load_on_exit = (
                                             loading_mode == GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)
-                                        data = _read_out_of_order(self,
+                                        data = _DeferredGrainData(self,
                                                                   self._next_lazy_grain_number,
-                                                                  self.file_data,
                                                                   self.file_data.tell(),
                                                                   grdt_block.get_remaining(),
                                                                   load_on_exit=load_on_exit)
-- 
2.43.0


From d9cd4022eb3a46de5dca5819669dce39dc2b9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 009/106] fix: never deliver part of a grain's data from a
 truncated file or a short read

---
 mediagrains/gsf.py | 87 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 85868ed..384948d 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -29,7 +29,7 @@ from mediatimestamp.immutable import Timestamp
 from fractions import Fraction
 from frozendict import frozendict
 from .utils import IOBytes
-from os import SEEK_SET, SEEK_CUR
+from os import SEEK_SET, SEEK_CUR, SEEK_END
 import warnings
 
 from asyncio import Lock
@@ -239,6 +239,36 @@ class GSFDecodeBadVersionError(GSFDecodeError):
         self.minor = minor
 
 
+async def _async_read_exactly(file_data: OpenAsyncBinaryIO, length: int) -> bytes:
+    """Read `length` bytes, however many reads that takes
+
+    :raises EOFError: If there are fewer than `length` bytes left in the source
+    """
+    data = await file_data.read(length)
+    while len(data) < length:
+        more = await file_data.read(length - len(data))
+        if len(more) == 0:
+            raise EOFError("Unable to read enough bytes from source")
+        data += more
+    return data
+
+
+def _read_exactly(file_data: IO[bytes], length: int) -> bytes:
+    """Read `length` bytes, however many reads that takes
+
+    :raises EOFError: If there are fewer than `length` bytes left in the source
+    """
+    data = file_data.read(length) or b""
+    while len(data) < length:
+        more = file_data.read(length - len(data))
+        if more is None:
+            continue  # A non-blocking source which has nothing yet
+        if len(more) == 0:
+            raise EOFError("Unable to read enough bytes from source")
+        data += more
+    return data
+
+
 class AsyncGSFBlock():
     """A single block in a GSF file
 
@@ -384,7 +414,7 @@ class AsyncGSFBlock():
 
         bytes_remaining = self.get_remaining()
         if bytes_remaining > 0:
-            buffer = await self.file_data.read(bytes_remaining)
+            buffer = await _async_read_exactly(self.file_data, bytes_remaining)
         else:
             buffer = bytes()
 
@@ -413,10 +443,7 @@ class AsyncGSFBlock():
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
         r = 0
-        uint_bytes = await self.file_data.read(length)
-
-        if len(uint_bytes) != length:
-            raise EOFError("Unable to read enough bytes from source")
+        uint_bytes = await _async_read_exactly(self.file_data, length)
 
         for n in range(0, length):
             r += (uint_bytes[n] << (n*8))
@@ -429,9 +456,7 @@ class AsyncGSFBlock():
         :returns: String
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
-        string_data = await self.file_data.read(length)
-        if (len(string_data) != length):
-            raise EOFError("Unable to read enough bytes from source")
+        string_data = await _async_read_exactly(self.file_data, length)
 
         try:
             string = string_data.decode(encoding='utf-8').rstrip('\x00')
@@ -601,7 +626,7 @@ class SyncGSFBlock():
 
         bytes_remaining = self.get_remaining()
         if bytes_remaining > 0:
-            buffer = self.file_data.read(bytes_remaining)
+            buffer = _read_exactly(self.file_data, bytes_remaining)
         else:
             buffer = bytes()
 
@@ -630,10 +655,7 @@ class SyncGSFBlock():
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
         r = 0
-        uint_bytes = self.file_data.read(length)
-
-        if len(uint_bytes) != length:
-            raise EOFError("Unable to read enough bytes from source")
+        uint_bytes = _read_exactly(self.file_data, length)
 
         for n in range(0, length):
             r += (uint_bytes[n] << (n*8))
@@ -692,9 +714,7 @@ class SyncGSFBlock():
         :returns: String
         :raises EOFError: If there are fewer than `length` bytes left in the source
         """
-        string_data = self.file_data.read(length)
-        if (len(string_data) != length):
-            raise EOFError("Unable to read enough bytes from source")
+        string_data = _read_exactly(self.file_data, length)
 
         try:
             string = string_data.decode(encoding='utf-8').rstrip('\x00')
@@ -724,10 +744,7 @@ class SyncGSFBlock():
         :returns: UUID
         :raises EOFError: If there are fewer than l bytes left in the source
         """
-        uuid_data = self.file_data.read(16)
-
-        if (len(uuid_data) != 16):
-            raise EOFError("Unable to read enough bytes from source")
+        uuid_data = _read_exactly(self.file_data, 16)
 
         return UUID(bytes=uuid_data)
 
@@ -793,7 +810,7 @@ class SyncGSFBlock():
         :raises EOFError: If there are too few bytes left in the source
         """
         length = self.read_uint(4)
-        return self.file_data.read(length)
+        return _read_exactly(self.file_data, length)
 
     def skip(self, length: int) -> None:
         """Skip length bytes
@@ -833,6 +850,20 @@ class BaseGSFDecoderSession(object):
     def __init__(self):
         self.major = 0
         self.minor = 0
+        self._known_file_size = 0
+
+    def _check_present(self, file_data: Union[IO[bytes], OpenAsyncBinaryIO], length: int) -> None:
+        """Check that a seekable file goes on for `length` bytes, before deferring reading them
+
+        :raises EOFError: If it does not
+        """
+        pos = file_data.tell()
+        if pos + length > self._known_file_size:
+            file_data.seek(0, SEEK_END)
+            self._known_file_size = file_data.tell()
+            file_data.seek(pos)
+            if pos + length > self._known_file_size:
+                raise EOFError("Unable to read enough bytes from source")
 
     def _sync_decode_head(self,
                           head_block: SyncGSFBlock) -> GSFFileHeaderDict:
@@ -1058,7 +1089,7 @@ class _DeferredGrainData():
                 oldpos = file_data.tell()
                 file_data.seek(self._pos)
                 try:
-                    self._data = await file_data.read(self._length)
+                    self._data = await _async_read_exactly(file_data, self._length)
                 finally:
                     file_data.seek(oldpos)
                 self._parent._remove_lazy_grain(self._key)
@@ -1215,6 +1246,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                 if self.file_data.seekable_backwards() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
                                  GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
+                                    self._check_present(self.file_data, grdt_block.get_remaining())
                                     if not self._sync_compatibility_mode:
                                         # It is correct that this is not awaited here
                                         # It will be awaited when the data is actually needed.
@@ -1235,9 +1267,9 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                     if self.file_data.seekable_forwards():
                                         self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
                                     else:
-                                        await self.file_data.read(grdt_block.get_remaining())
+                                        await _async_read_exactly(self.file_data, grdt_block.get_remaining())
                                 else:
-                                    data = await self.file_data.read(grdt_block.get_remaining())
+                                    data = await _async_read_exactly(self.file_data, grdt_block.get_remaining())
 
                 grain = self.Grain(meta, data)
 
@@ -1359,6 +1391,7 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                 if self.file_data.seekable() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
                                  GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
+                                    self._check_present(self.file_data, grdt_block.get_remaining())
                                     data = IOBytes(self.file_data,
                                                    self.file_data.tell(),
                                                    grdt_block.get_remaining())
@@ -1366,9 +1399,9 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                     if self.file_data.seekable():
                                         self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
                                     else:
-                                        self.file_data.read(grdt_block.get_remaining())
+                                        _read_exactly(self.file_data, grdt_block.get_remaining())
                                 else:
-                                    data = self.file_data.read(grdt_block.get_remaining())
+                                    data = _read_exactly(self.file_data, grdt_block.get_remaining())
 
                 grain = self.Grain(meta, data)
 
-- 
2.43.0


From 9e95272210f6ce50cbdf0c05f77566342c8e5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 010/106] fix: report a file cut within its file header as a
 decode error, and close the file whatever happens

---
 mediagrains/gsf.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 384948d..97bffa9 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1145,7 +1145,10 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :raises GSFDecodeBadFileTypeError: If this isn't a GSF file
         :raises GSFDecodeError: If the file doesn't have a "head" block
         """
-        (self.major, self.minor) = await self._decode_ssb_header(head_tag=head_tag)
+        try:
+            (self.major, self.minor) = await self._decode_ssb_header(head_tag=head_tag)
+        except EOFError:
+            raise GSFDecodeError("No file header found in file", self.file_data.tell())
         if self.major not in [7, 8, 9]:
             raise GSFDecodeBadVersionError(f"Unknown Version {self.major}.{self.minor}", 0, self.major, self.minor)
 
@@ -1324,7 +1327,10 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
         :raises GSFDecodeBadFileTypeError: If this isn't a GSF file
         :raises GSFDecodeError: If the file doesn't have a "head" block
         """
-        (self.major, self.minor) = self._decode_ssb_header(head_tag=head_tag)
+        try:
+            (self.major, self.minor) = self._decode_ssb_header(head_tag=head_tag)
+        except EOFError:
+            raise GSFDecodeError("No file header found in file", self.file_data.tell())
         if self.major not in [7, 8, 9]:
             raise GSFDecodeBadVersionError(f"Unknown Version {self.major}.{self.minor}", 0, self.major, self.minor)
 
@@ -1494,13 +1500,14 @@ class GSFDecoder(object):
         return self._open_asession
 
     async def __aexit__(self, *args, **kwargs):
-        if self._open_asession is not None:
-            await self._open_asession._kill_unused_lazy_loaders()
-            self._open_asession = None
-
-        if self._open_afile is not None and self._afile_data is not None:
-            await self._afile_data.__aexit__(*args, **kwargs)
-            self._open_afile = None
+        try:
+            if self._open_asession is not None:
+                await self._open_asession._kill_unused_lazy_loaders()
+                self._open_asession = None
+        finally:
+            if self._open_afile is not None and self._afile_data is not None:
+                await self._afile_data.__aexit__(*args, **kwargs)
+                self._open_afile = None
 
     @deprecated(version="2.7.0", reason="This method is old, use the class as a context manager instead")
     def decode_file_headers(self) -> GSFFileHeaderDict:
-- 
2.43.0


From 6e1bca5bc6062e12e405d108c208bebbcf6a0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 011/106] fix: skip the whole extent when seeking forward in a
 piped input

---
 mediagrains/tools/_file_or_pipe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 40f08b0..f8d335d 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -51,9 +51,12 @@ class InputStreamWrapper(BufferedIOBase):
 
         if offset < 0:
             raise NotImplementedError("Cannot seek backwards in a stream")
-        if offset > 0:
-            self._file.read(offset)
         self._pos += offset
+        while offset > 0:
+            b = self._file.read(offset)
+            if len(b) == 0:
+                break
+            offset -= len(b)
         return self._pos
 
 
-- 
2.43.0


From 2af53e7763c77a233a918c620b104a42291ed6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 012/106] fix: load all of a deferred payload when its file
 delivers it in pieces

---
 mediagrains/utils/iobytes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 8ae825b..fe9b0d8 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -140,6 +140,11 @@ class IOBytes (LazyLoader, Sequence):
             try:
                 self._istream.seek(self._start)
                 _bytes = self._istream.read(self._length)
+                while 0 < len(_bytes) < self._length:
+                    more = self._istream.read(self._length - len(_bytes))
+                    if len(more) == 0:
+                        break
+                    _bytes += more
             finally:
                 self._istream.seek(loc)
             return _bytes
-- 
2.43.0


From 9682af35e290067ec6c3b3cc17c74422253bf060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 013/106] fix: let array grains have absent data and data which
 is loaded later

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  8 ++++++--
 mediagrains/numpy/numpy_grains/VideoGrain.py | 11 +++++++++--
 mediagrains/numpy/numpy_grains/_data.py      | 18 ++++++++++++++++++
 3 files changed, 33 insertions(+), 4 deletions(-)
 create mode 100644 mediagrains/numpy/numpy_grains/_data.py

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 05f9082..be48038 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -9,6 +9,8 @@ from fractions import Fraction
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
+from ._data import _array_from_data
+
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
 
@@ -141,7 +143,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         self.channel_data: List[np.ndarray]
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = _array_from_data(self._data, _dtype_from_cogaudioformat(self.format))
         if self._data is not None:
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
@@ -153,6 +155,8 @@ class AudioGrain (bytesgrain.AudioGrain):
     def length(self) -> int:
         if self._data is not None:
             return self._data.nbytes
+        elif self._data_fetcher_coroutine is not None:
+            return self._data_fetcher_length
         else:
             return 0
 
@@ -176,7 +180,7 @@ class AudioGrain (bytesgrain.AudioGrain):
             self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = _array_from_data(value, _dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
             )
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 99be2a0..17be8fb 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -11,6 +11,8 @@ import uuid
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
+from ._data import _array_from_data
+
 from typing import Callable, Dict, Tuple, Optional, Awaitable, cast, Generator, Any
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
 
@@ -67,6 +69,9 @@ class ComponentDataList(list):
 
     def __init__(self, data: list, arrangement: ComponentOrder = ComponentOrder.X):
         super().__init__(data)
+        if len(self) == 0:
+            # There is no data to give access to
+            return
         if arrangement == ComponentDataList.ComponentOrder.YUV:
             self.Y = self[0]
             self.U = self[1]
@@ -255,7 +260,7 @@ class VideoGrain (bytesgrain.VideoGrain):
         self.component_data: ComponentDataList
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = _array_from_data(self._data, _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
@@ -265,6 +270,8 @@ class VideoGrain (bytesgrain.VideoGrain):
     @property
     def length(self) -> int:
         if self._data is None:
+            if self._data_fetcher_coroutine is not None:
+                return self._data_fetcher_length
             return 0
         return self._data.nbytes
 
@@ -288,7 +295,7 @@ class VideoGrain (bytesgrain.VideoGrain):
             self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = _array_from_data(value, _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
diff --git a/mediagrains/numpy/numpy_grains/_data.py b/mediagrains/numpy/numpy_grains/_data.py
new file mode 100644
index 0000000..9c6bb62
--- /dev/null
+++ b/mediagrains/numpy/numpy_grains/_data.py
@@ -0,0 +1,18 @@
+from typing import Any, Optional
+
+import numpy as np
+
+
+def _array_from_data(data: Any, dtype: np.dtype) -> Optional[np.ndarray]:
+    """This method returns a numpy array of a grain's data element, sharing its memory where that is possible.
+
+    Data elements that can only be converted to bytes (such as those which are loaded lazily) are converted, and absent
+    data has no array.
+    """
+    if data is None:
+        return None
+    try:
+        memoryview(data)
+    except TypeError:
+        data = bytes(data)
+    return np.frombuffer(data, dtype=dtype)
-- 
2.43.0


From ee8844e09fa60a90125825be14739637ef98e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 014/106] fix: read the null date-time as no date-time

---
 mediagrains/gsf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 97bffa9..794e655 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -748,10 +748,10 @@ class SyncGSFBlock():
 
         return UUID(bytes=uuid_data)
 
-    def read_datetime(self) -> datetime:
+    def read_datetime(self) -> Optional[datetime]:
         """Read a date-time (with seconds resolution) stored in 7 bytes
 
-        :returns: Datetime
+        :returns: Datetime, or None for a null date-time (where all members are 0)
         :raises EOFError: If there are fewer than 7 bytes left in the source
         """
         year = self.read_sint(2)
@@ -760,6 +760,8 @@ class SyncGSFBlock():
         hour = self.read_uint(1)
         minute = self.read_uint(1)
         second = self.read_uint(1)
+        if (year, month, day, hour, minute, second) == (0, 0, 0, 0, 0, 0):
+            return None
         return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
 
     def read_timestamp_v7(self) -> Timestamp:
-- 
2.43.0


From 3c9f49afff9573f35891fe7083a063c83a8a5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 015/106] fix: end a string in a GSF file at its null character

---
 mediagrains/gsf.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 794e655..2e5cf6d 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -459,10 +459,8 @@ class AsyncGSFBlock():
         string_data = await _async_read_exactly(self.file_data, length)
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            # A null character ends the string, whatever comes after it
+            return string_data.split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
@@ -717,10 +715,8 @@ class SyncGSFBlock():
         string_data = _read_exactly(self.file_data, length)
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            # A null character ends the string, whatever comes after it
+            return string_data.split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
-- 
2.43.0


From b90eb26f1fafca673973e6fa3cd8d5a7c967b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 016/106] fix: report bad contents of GSF headers as decode
 errors

---
 mediagrains/gsf.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2e5cf6d..4647f46 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -37,6 +37,7 @@ from inspect import isawaitable
 
 from typing import (
     Any,
+    Callable,
     Generator,
     Optional,
     Iterable,
@@ -53,7 +54,8 @@ from typing import (
     AsyncIterable,
     Awaitable,
     overload,
-    NamedTuple)
+    NamedTuple,
+    TypeVar)
 from typing_extensions import TypedDict
 from .typing import GrainMetadataDict, RationalTypes, ParseGrainType
 
@@ -73,6 +75,8 @@ __all__ = ["GSFDecoder", "load", "loads", "GSFError", "GSFDecodeError",
            "GSFEncoder", "dump", "dumps", "GSFEncodeError",
            "GSFEncodeAddToActiveDump"]
 
+T = TypeVar("T")
+
 
 @contextmanager
 def no_deprecation_warnings():
@@ -863,6 +867,17 @@ class BaseGSFDecoderSession(object):
             if pos + length > self._known_file_size:
                 raise EOFError("Unable to read enough bytes from source")
 
+    def _decode_contents(self, decode: Callable[[SyncGSFBlock], T], block: SyncGSFBlock) -> T:
+        """Decode a block which has been read completely, using one of the methods below
+
+        :raises GSFDecodeError: If the block ends early or holds values which aren't valid
+        """
+        try:
+            return decode(block)
+        except (EOFError, ValueError) as e:
+            raise GSFDecodeError("Bad contents in '{}' at {}: {}".format(block.tag, block.block_start, e),
+                                 block.block_start)
+
     def _sync_decode_head(self,
                           head_block: SyncGSFBlock) -> GSFFileHeaderDict:
         """Decode the "head" block and extract ID, created date, segments and tags
@@ -1152,7 +1167,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
         try:
             async with AsyncGSFBlock(self.file_data, want_tag="head") as head_block:
-                self.file_headers = self._sync_decode_head(await head_block.read_remaining_block())
+                self.file_headers = self._decode_contents(self._sync_decode_head,
+                                                          await head_block.read_remaining_block())
         except EOFError:
             raise GSFDecodeError("No head block found in file", self.file_data.tell())
 
@@ -1236,7 +1252,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                         continue
 
                     async with AsyncGSFBlock(grai_block, want_tag="gbhd", raise_on_wrong_tag=True) as gbhd_block:
-                        meta = self._sync_decode_gbhd(await gbhd_block.read_remaining_block())
+                        meta = self._decode_contents(self._sync_decode_gbhd,
+                                                     await gbhd_block.read_remaining_block())
 
                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]] = None
 
@@ -1334,7 +1351,8 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
 
         try:
             with SyncGSFBlock(self.file_data, want_tag="head") as head_block:
-                self.file_headers = self._sync_decode_head(head_block.read_remaining_block())
+                self.file_headers = self._decode_contents(self._sync_decode_head,
+                                                          head_block.read_remaining_block())
         except EOFError:
             raise GSFDecodeError("No head block found in file", self.file_data.tell())
 
@@ -1385,7 +1403,8 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                         continue
 
                     with SyncGSFBlock(grai_block, want_tag="gbhd", raise_on_wrong_tag=True) as gbhd_block:
-                        meta = self._sync_decode_gbhd(gbhd_block.read_remaining_block())
+                        meta = self._decode_contents(self._sync_decode_gbhd,
+                                                     gbhd_block.read_remaining_block())
 
                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]] = None
 
-- 
2.43.0


From 94d14c859351a599e2819a0c80decb17d7e173e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 017/106] fix: reject GSF blocks which go on beyond the end of
 the block they are in

---
 mediagrains/gsf.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 4647f46..4f870a6 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -273,6 +273,18 @@ def _read_exactly(file_data: IO[bytes], length: int) -> bytes:
     return data
 
 
+def _check_in_parent(block: Union["AsyncGSFBlock", "SyncGSFBlock"], size: int) -> None:
+    """Check that a block of `size` bytes fits in the block it is a child of, if that is known
+
+    :raises GSFDecodeError: If it does not
+    """
+    parent = block.parent
+    if parent is not None and parent.size is not None:
+        if block.block_start + size > parent.block_start + parent.size:
+            raise GSFDecodeError("Block of at least {} bytes at {} doesn't fit in its parent '{}'".format(
+                                 size, block.block_start, parent.tag), block.block_start)
+
+
 class AsyncGSFBlock():
     """A single block in a GSF file
 
@@ -293,8 +305,10 @@ class AsyncGSFBlock():
         :param raise_on_wrong_tag: Set to True to raise a GSFDecodeError if the next block isn't `want_tag`
         """
         self.file_data: OpenAsyncBinaryIO
+        self.parent: Optional["AsyncGSFBlock"] = None
         if isinstance(file_data, AsyncGSFBlock):
             block = file_data
+            self.parent = block
             self.file_data = block.file_data
         else:
             self.file_data = file_data
@@ -313,11 +327,13 @@ class AsyncGSFBlock():
         - Unless raise_on_wrong_tag was also supplied, in which case raise
 
         :returns: Instance of GSFBlock
-        :raises GSFDecodeError: If the block tag failed to decode as UTF-8, or an unwanted tag was found
+        :raises GSFDecodeError: If the block tag failed to decode as UTF-8, or an unwanted tag was found, or the block
+                                goes on beyond the end of the block it is in
         """
         assert self.file_data.tell() == self.block_start, "Can't enter context manager after the block start"
 
         while True:
+            _check_in_parent(self, 8)
             self.tag = await self.read_tag()
 
             if self.tag == "SSBB":
@@ -333,6 +349,8 @@ class AsyncGSFBlock():
             else:
                 self.size = await self.read_uint(4)
 
+            _check_in_parent(self, self.size)
+
             if self.want_tag is None or self.tag == self.want_tag:
                 return self
             elif self.tag != self.want_tag and self.raise_on_wrong_tag:
@@ -396,7 +414,7 @@ class AsyncGSFBlock():
         :raises GSFDecodeError: If there is a partial block and strict=True
         """
         while self.has_child_block(strict_blocks=strict_blocks):
-            async with AsyncGSFBlock(self.file_data) as child_block:
+            async with AsyncGSFBlock(self) as child_block:
                 yield child_block
 
     def get_remaining(self):
@@ -495,8 +513,10 @@ class SyncGSFBlock():
         """
         self.file_data: IO[bytes]
         self.file_data_start: int
+        self.parent: Optional["SyncGSFBlock"] = None
         if isinstance(file_data, SyncGSFBlock):
             block = file_data
+            self.parent = block
             self.file_data = block.file_data
             self.file_data_start = block.file_data_start
         else:
@@ -521,13 +541,15 @@ class SyncGSFBlock():
         - Unless raise_on_wrong_tag was also supplied, in which case raise
 
         :returns: Instance of GSFBlock
-        :raises GSFDecodeError: If the block tag failed to decode as UTF-8, or an unwanted tag was found
+        :raises GSFDecodeError: If the block tag failed to decode as UTF-8, or an unwanted tag was found, or the block
+                                goes on beyond the end of the block it is in
         """
         assert self._base_file_tell() == self.block_start, "Can't enter context manager after the block start"
 
         # NOTE: Ensure that changes to the state set here is also changed in read_remaining_block
         # in SyncGSFBlock and AsyncGSFBlock
         while True:
+            _check_in_parent(self, 8)
             self.tag = self.read_tag()
 
             if self.tag == "SSBB":
@@ -543,6 +565,8 @@ class SyncGSFBlock():
             else:
                 self.size = self.read_uint(4)
 
+            _check_in_parent(self, self.size)
+
             if self.want_tag is None or self.tag == self.want_tag:
                 return self
             elif self.tag != self.want_tag and self.raise_on_wrong_tag:
@@ -904,7 +928,7 @@ class BaseGSFDecoderSession(object):
 
                 # Segment blocks can have child tags as well
                 while head_child.has_child_block():
-                    with SyncGSFBlock(head_block) as segm_child:
+                    with SyncGSFBlock(head_child) as segm_child:
                         if segm_child.tag == "flow":
                             src_id = segm_child.read_uuid()
                             flow_id = segm_child.read_uuid()
-- 
2.43.0


From 7d8ce6af62602d9ba1c82e44252d0691d6862566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 018/106] fix: don't allocate more than an in-memory file holds
 when reading it

---
 mediagrains/utils/asyncbinaryio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 15fdfc6..3735c53 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -119,6 +119,13 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
         "This coroutine should include any code that is to be run when the io stream is opened"
         self._pos = 0
 
+    async def read(self, size: int = -1) -> bytes:
+        if size > max(0, self._len - self._pos):
+            # Don't make room for more than there can be
+            self._pos = max(self._pos, self._len)
+            raise EOFError
+        return await super().read(size)
+
     @wrap_in_executor
     def readinto(self, b: bytearray) -> int:
         length = min(self._len - self._pos, len(b))
-- 
2.43.0


From df4ce50b3323829ccfa6e54162876fa32bec7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 019/106] fix: move to the end when reading all of an
 asynchronous in-memory file

---
 mediagrains/utils/asyncbinaryio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 3735c53..b3f145c 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -139,7 +139,9 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
     @wrap_in_executor
     def readall(self) -> bytes:
         if self._pos >= 0 and self._pos < self._len:
-            return bytes(self._buffer[self._pos:self._len])
+            b = bytes(self._buffer[self._pos:self._len])
+            self._pos = self._len
+            return b
         else:
             return bytes()
 
-- 
2.43.0


From 1662011f80a6ca2c6f82eb082ef36a46cd0a0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 020/106] fix: fill what lies beyond the end of an asynchronous
 in-memory file with zeros

---
 mediagrains/utils/asyncbinaryio.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index b3f145c..f420ed3 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -147,25 +147,34 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
-        if self._pos < 0:
+        length = len(b)
+        if length == 0:
             return 0
 
-        if self._pos + len(b) > len(self._buffer):
-            newbuf = bytearray(max(self._pos + len(b), 2*len(self._buffer)))
+        self._extend(self._pos)
+
+        if self._pos + length > len(self._buffer):
+            newbuf = bytearray(max(self._pos + length, 2*len(self._buffer)))
             newbuf[:self._len] = self._buffer[:self._len]
             self._buffer = newbuf
 
-        length = len(b)
         self._buffer[self._pos:self._pos + length] = b[:length]
         self._pos += length
         self._len = max(self._pos, self._len)
         return length
 
-    async def truncate(self, size: Optional[int] = None) -> int:
-        if size is not None:
+    def _extend(self, size: int) -> None:
+        """Fill with zeros up to `size`, if that is beyond the end, whatever was there before the file was truncated"""
+        if size > self._len:
+            self._buffer[self._len:] = bytes(max(size, len(self._buffer)) - self._len)
             self._len = size
-        else:
-            self._len = max(self._pos, 0)
+
+    async def truncate(self, size: Optional[int] = None) -> int:
+        if size is None:
+            size = self._pos
+
+        self._extend(size)
+        self._len = size
 
         return self._len
 
-- 
2.43.0


From 0ac4d42656135071175f4b942aeb191462ae8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 021/106] fix: return the position from seeking an asynchronous
 in-memory file, and refuse negative ones

---
 mediagrains/utils/asyncbinaryio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index f420ed3..d6a7974 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -183,11 +183,15 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     def seek(self, offset: int, whence: int = SEEK_SET):
         if whence == SEEK_SET:
-            self._pos = offset
+            pos = offset
         elif whence == SEEK_CUR:
-            self._pos += offset
+            pos = self._pos + offset
         else:
-            self._pos = self._len + offset
+            pos = self._len + offset
+        if pos < 0:
+            raise ValueError("negative seek position {}".format(pos))
+        self._pos = pos
+        return self._pos
 
     def seekable(self) -> bool:
         return True
-- 
2.43.0


From e28b9ee4984f016d30df20e05640f3c57736ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 022/106] fix: read all of a wrapped file which has no readall
 method

---
 mediagrains/utils/asyncbinaryio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index d6a7974..cac417a 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -245,7 +245,8 @@ class OpenAsyncFileWrapper(OpenAsyncBinaryIO):
         return await wrap_in_executor(self.fp.readinto)(b)
 
     async def readall(self) -> bytes:
-        return await wrap_in_executor(self.fp.readall)()
+        # Only raw files have a readall method
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return await wrap_in_executor(self.fp.write)(b)
@@ -299,7 +300,8 @@ class OpenAsyncBytesIOWrapper(OpenAsyncBinaryIO):
         return self.fp.readinto(b)
 
     async def readall(self) -> bytes:
-        return self.fp.readall()
+        # Only raw files have a readall method
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return self.fp.write(b)
-- 
2.43.0


From 4c084c1571a8b760755419a1982df10f4fd7b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 023/106] fix: count octets once when reading all of a stream

---
 mediagrains/utils/asyncbinaryio.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index cac417a..89624bc 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -391,9 +391,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
             return len(d)
 
     async def readall(self) -> bytes:
-        d = await self.read()
-        self._pos += len(d)
-        return d
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         if self.writer is None:
-- 
2.43.0


From 81e831af64aa9d9f7a2cb65e1dc394807a258aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 024/106] fix: compare lazily loaded bytes with each other by
 content

---
 mediagrains/utils/iobytes.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index fe9b0d8..a16d5eb 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -25,6 +25,16 @@ from typing import List
 __all__ = ["IOBytes"]
 
 
+def _loaded(value):
+    """The object behind a LazyLoader, loaded if need be, or any other value unchanged: a built-in type such as bytes
+    will only compare itself with its own kind."""
+    if isinstance(value, LazyLoader):
+        if value._object is None:
+            value._object = value._loader()
+        return value._object
+    return value
+
+
 class LazyLoader (object):
     """An object that will be loaded lazily as needed.
 
@@ -71,23 +81,23 @@ class LazyLoader (object):
             return setattr(object.__getattribute__(self, '_object'), attr, value)
 
     # In python2.7 some special methods may bypass __getattribute__, so need to be specifically redefined
-    def __lt__(self, *args, **kwargs):
-        return self.__getattribute__('__lt__')(*args, **kwargs)
+    def __lt__(self, other):
+        return self.__getattribute__('__lt__')(_loaded(other))
 
-    def __le__(self, *args, **kwargs):
-        return self.__getattribute__('__le__')(*args, **kwargs)
+    def __le__(self, other):
+        return self.__getattribute__('__le__')(_loaded(other))
 
-    def __gt__(self, *args, **kwargs):
-        return self.__getattribute__('__gt__')(*args, **kwargs)
+    def __gt__(self, other):
+        return self.__getattribute__('__gt__')(_loaded(other))
 
-    def __ge__(self, *args, **kwargs):
-        return self.__getattribute__('__ge__')(*args, **kwargs)
+    def __ge__(self, other):
+        return self.__getattribute__('__ge__')(_loaded(other))
 
-    def __eq__(self, *args, **kwargs):
-        return self.__getattribute__('__eq__')(*args, **kwargs)
+    def __eq__(self, other):
+        return self.__getattribute__('__eq__')(_loaded(other))
 
-    def __ne__(self, *args, **kwargs):
-        return self.__getattribute__('__ne__')(*args, **kwargs)
+    def __ne__(self, other):
+        return self.__getattribute__('__ne__')(_loaded(other))
 
     def __cmp__(self, *args, **kwargs):
         return self.__getattribute__('__cmp__')(*args, **kwargs)
-- 
2.43.0


From 83b2a41d2dca819f57bccd59bff347976a0d0c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 025/106] fix: let a grain's time labels behave as a list under
 slices, self-assignment and aliasing

---
 mediagrains/grains/Grain.py | 47 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index d6bed25..42f2fdf 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -533,9 +533,8 @@ media_rate
 
     @timelabels.setter
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
-        cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = []
-        for x in value:
-            self.timelabels.append(x)
+        # The new value may well be this grain's own list, or be derived from it, so read it before replacing anything
+        cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = [Grain.TIMELABELS._stored(x) for x in value]
 
     def add_timelabel(self, tag: str, count: int, rate: Fraction, drop_frame: bool = False) -> None:
         tl = Grain.TIMELABEL()
@@ -631,12 +630,11 @@ media_rate
         def __getitem__(self, key: slice) -> "List[Grain.TIMELABEL]": ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list index out of range")
-            if isinstance(key, int):
-                return Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][key])
+            labels = self.parent.meta['grain'].get('timelabels', [])
+            if isinstance(key, slice):
+                return [Grain.TIMELABEL(label) for label in labels[key]]
             else:
-                return [Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][n]) for n in range(len(self))[key]]
+                return Grain.TIMELABEL(labels[key])
 
         @overload
         def __setitem__(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None: ...
@@ -645,27 +643,32 @@ media_rate
         def __setitem__(self, key: slice, value: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list assignment index out of range")
-            if isinstance(key, int):
-                self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
+            if isinstance(key, slice):
+                labels = self.parent.meta['grain'].get('timelabels', [])
+                labels[key] = [self._stored(x) for x in value]
+                self.parent.meta['grain']['timelabels'] = labels
             else:
-                values = iter(value)
-                for n in key:
-                    self.parent.meta['grain']['timelabels'][n] = dict(Grain.TIMELABEL(next(values)))
+                self.parent.meta['grain'].get('timelabels', [])[key] = self._stored(value)
 
         def __delitem__(self, key: Union[int, slice]) -> None:
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list assignment index out of range")
-
-            del self.parent.meta['grain']['timelabels'][key]
-            if len(self.parent.meta['grain']['timelabels']) == 0:
-                del self.parent.meta['grain']['timelabels']
+            labels = self.parent.meta['grain'].get('timelabels', [])
+            del labels[key]
+            if len(labels) == 0:
+                self.parent.meta['grain'].pop('timelabels', None)
 
         def insert(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None:
             if 'timelabels' not in self.parent.meta['grain']:
                 cast(EmptyGrainMetadataDict, self.parent.meta)['grain']['timelabels'] = []
-            self.parent.meta['grain']['timelabels'].insert(key, cast(TimeLabel, dict(Grain.TIMELABEL(value))))
+            self.parent.meta['grain']['timelabels'].insert(key, self._stored(value))
+
+        def extend(self, values: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None:
+            # Another view of this same list would never run out of values while it was being added to
+            super().extend(list(values))
+
+        @staticmethod
+        def _stored(value: "Grain.TIMELABEL.GrainMetadataDict") -> TimeLabel:
+            # The caller's time label, which may be one from another grain, remains the caller's own
+            return cast(TimeLabel, dict(Grain.TIMELABEL(deepcopy(dict(value)))))
 
         def __len__(self) -> int:
             if 'timelabels' not in self.parent.meta['grain']:
-- 
2.43.0


From a6f9878b86773c26527dc4ca8369c7a6e6de3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 026/106] fix: keep plain dictionaries in a video grain's
 component list and honour list slices

---
 mediagrains/grains/VideoGrain.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 340b3d3..c54124e 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -209,11 +209,11 @@ length
         def __getitem__(self, key: slice) -> "List[VideoGrain.COMPONENT]": ...
 
         def __getitem__(self, key):  # noqa: F811
-            if isinstance(key, int):
-                return type(self.parent).COMPONENT(self.parent.meta['grain']['cog_frame']['components'][key])
-            else:
+            if isinstance(key, slice):
                 return [type(self.parent).COMPONENT(
                     self.parent.meta['grain']['cog_frame']['components'][k]) for k in range(len(self))[key]]
+            else:
+                return type(self.parent).COMPONENT(self.parent.meta['grain']['cog_frame']['components'][key])
 
         @overload
         def __setitem__(self, key: int, value: VideoGrainComponentDict) -> None: ...
@@ -222,19 +222,23 @@ length
         def __setitem__(self, key: slice, value: Iterable[VideoGrainComponentDict]) -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if isinstance(key, int):
-                self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
+            # The metadata holds plain dictionaries, so that it can always be serialised
+            if isinstance(key, slice):
+                self.parent.meta['grain']['cog_frame']['components'][key] = [
+                    cast(VideoGrainComponentDict, dict(v)) for v in value]
             else:
-                values = iter(value)
-                for n in range(len(self))[key]:
-                    self.parent.meta['grain']['cog_frame']['components'][n] = type(self.parent).COMPONENT(next(values))
+                self.parent.meta['grain']['cog_frame']['components'][key] = cast(VideoGrainComponentDict, dict(value))
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
 
         def insert(self, key: int, value: VideoGrainComponentDict) -> None:
             self.parent.meta['grain']['cog_frame']['components'].insert(
-                key, type(self.parent).COMPONENT(value))  # type: ignore
+                key, cast(VideoGrainComponentDict, dict(value)))
+
+        def extend(self, values: Iterable[VideoGrainComponentDict]) -> None:
+            # Another view of this same list would never run out of values while it was being added to
+            super().extend(list(values))
 
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
-- 
2.43.0


From e219f2a8a4cf4f1301c5df1866dcdc24a90b2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 027/106] fix: let coded unit offsets behave as a list when
 absent and not share the caller's list

---
 mediagrains/grains/CodedVideoGrain.py | 28 +++++++++++++--------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b45e5a7..4d0138d 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -183,7 +183,7 @@ unit_offsets
             data = bytearray(length)
 
         if "grain" in meta and "cog_coded_frame" in meta['grain'] and unit_offsets is not None:
-            meta['grain']['cog_coded_frame']['unit_offsets'] = unit_offsets
+            meta['grain']['cog_coded_frame']['unit_offsets'] = list(unit_offsets)
 
         super().__init__(meta, data)
         self.meta: CodedVideoGrainMetadataDict
@@ -344,10 +344,7 @@ unit_offsets
         def __getitem__(self, key: slice) -> List[int]: ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                return self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key]
-            else:
-                raise IndexError("list index out of range")
+            return self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])[key]
 
         @overload
         def __setitem__(self, key: int, value: int) -> None: ...
@@ -356,18 +353,15 @@ unit_offsets
         def __setitem__(self, key: slice, value: Iterable[int]) -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key] = value
-            else:
-                raise IndexError("list assignment index out of range")
+            offsets = self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])
+            offsets[key] = value
+            self.parent.meta['grain']['cog_coded_frame']['unit_offsets'] = offsets
 
         def __delitem__(self, key: Union[int, slice]) -> None:
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                del cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])[key]
-                if len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets']) == 0:
-                    del self.parent.meta['grain']['cog_coded_frame']['unit_offsets']
-            else:
-                raise IndexError("list assignment index out of range")
+            offsets = self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])
+            del offsets[key]
+            if len(offsets) == 0:
+                self.parent.meta['grain']['cog_coded_frame'].pop('unit_offsets', None)
 
         def insert(self, key: int, value: int) -> None:
             if 'unit_offsets' not in self.parent.meta['grain']['cog_coded_frame']:
@@ -377,6 +371,10 @@ unit_offsets
             else:
                 cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets']).insert(key, value)
 
+        def extend(self, values: Iterable[int]) -> None:
+            # Another view of this same list would never run out of values while it was being added to
+            super().extend(list(values))
+
         def __len__(self) -> int:
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 return len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])
-- 
2.43.0


From ae841d2937ea4ac3a182c11637e0d85965dd921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 028/106] fix: keep a grain's copies able to load data that had
 not been loaded when they were made

---
 mediagrains/grains/Grain.py                  | 38 ++++++++++++++++++--
 mediagrains/numpy/numpy_grains/AudioGrain.py |  6 ++--
 mediagrains/numpy/numpy_grains/VideoGrain.py |  6 ++--
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 42f2fdf..0223495 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -27,6 +27,7 @@ from typing import (
     Iterator,
     Iterable,
     Awaitable,
+    Callable,
     Generator)
 
 from ..typing import (
@@ -167,6 +168,24 @@ def attributes_for_grain_type(grain_type: str | GrainType, new: bool = False) ->
         return COMMON_ATTRS
 
 
+class _SharedData:
+    """An awaitable data element that a grain and its copies can all await, though it can only be awaited once itself."""
+    def __init__(self, awaitable: Awaitable[Optional[GrainDataType]],
+                 duplicate: Optional[Callable[[Any], Any]] = None):
+        self._awaitable: Optional[Awaitable[Optional[GrainDataType]]] = awaitable
+        self._duplicate = duplicate
+        self._data: Optional[GrainDataType] = None
+
+    def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
+        async def __inner():
+            if self._awaitable is not None:
+                data = await self._awaitable
+                self._data = data if self._duplicate is None else self._duplicate(data)
+                self._awaitable = None
+            return self._data
+        return __inner().__await__()
+
+
 class Grain(Sequence):
     """\
 A class representing a generic media grain.
@@ -366,10 +385,25 @@ media_rate
         return not (self == other)
 
     def __copy__(self) -> "Grain":
-        return GrainFactory(copy(self.meta), self.data)
+        return self._share_absent_data(GrainFactory(copy(self.meta), self.data))
 
     def __deepcopy__(self, memo) -> "Grain":
-        return GrainFactory(deepcopy(self.meta), deepcopy(self.data))
+        return self._share_absent_data(GrainFactory(deepcopy(self.meta), deepcopy(self.data)), deepcopy)
+
+    def _share_absent_data(self, other: "Grain", duplicate: Optional[Callable[[Any], Any]] = None) -> "Grain":
+        """Gives a new copy of this grain no data if this grain has none yet, and the means to be populated with it if
+        this grain can still be populated."""
+        if self.data is None:
+            other.data = None
+        if self._data is None and self._data_fetcher_coroutine is not None:
+            if not isinstance(self._data_fetcher_coroutine, _SharedData):
+                self._data_fetcher_coroutine = _SharedData(self._data_fetcher_coroutine)
+            if duplicate is None:
+                other._data_fetcher_coroutine = self._data_fetcher_coroutine
+            else:
+                other._data_fetcher_coroutine = _SharedData(self._data_fetcher_coroutine, duplicate)
+            other._data_fetcher_length = self._data_fetcher_length
+        return other
 
     def __bytes__(self) -> Optional[bytes]:
         if isinstance(self._data, bytes):
diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index be48038..5fcc5cb 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -194,11 +194,11 @@ class AudioGrain (bytesgrain.AudioGrain):
         return bytes(self._data)
 
     def __copy__(self) -> "AudioGrain":
-        return AudioGrain(meta=copy(self.meta), data=self.data)
+        return cast(AudioGrain, self._share_absent_data(AudioGrain(meta=copy(self.meta), data=self.data)))
 
     def __deepcopy__(self, memo) -> "AudioGrain":
-        return AudioGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        return cast(AudioGrain, self._share_absent_data(
+            AudioGrain(meta=deepcopy(self.meta), data=self._data.copy() if self._data is not None else None), deepcopy))
 
     def __repr__(self) -> str:
         if self.data is None:
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 17be8fb..299a3e0 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -309,11 +309,11 @@ class VideoGrain (bytesgrain.VideoGrain):
         return bytes(self._data)
 
     def __copy__(self) -> "VideoGrain":
-        return VideoGrain(meta=copy(self.meta), data=self.data)
+        return cast(VideoGrain, self._share_absent_data(VideoGrain(meta=copy(self.meta), data=self.data)))
 
     def __deepcopy__(self, memo) -> "VideoGrain":
-        return VideoGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        return cast(VideoGrain, self._share_absent_data(
+            VideoGrain(meta=deepcopy(self.meta), data=self._data.copy() if self._data is not None else None), deepcopy))
 
     def __repr__(self) -> str:
         if self.data is None:
-- 
2.43.0


From de593a333b464876aa81b090225c647c08f24df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 029/106] fix: give typed grains made without identifiers the
 nil identifier rather than the text None

---
 mediagrains/grains/AudioGrain.py      | 4 ++--
 mediagrains/grains/CodedAudioGrain.py | 4 ++--
 mediagrains/grains/CodedVideoGrain.py | 4 ++--
 mediagrains/grains/EventGrain.py      | 4 ++--
 mediagrains/grains/VideoGrain.py      | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index f3f588f..65d7689 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -130,8 +130,8 @@ sample_rate
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "audio",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index b60caaa..2ef8d9d 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -130,8 +130,8 @@ remainder
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "coded_audio",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 4d0138d..83af7e8 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -151,8 +151,8 @@ unit_offsets
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     "grain_type": "coded_video",
-                    "source_id": str(src_id),
-                    "flow_id": str(flow_id),
+                    "source_id": str(src_id if src_id is not None else UUID(int=0)),
+                    "flow_id": str(flow_id if flow_id is not None else UUID(int=0)),
                     "origin_timestamp": str(mediatimestamp(origin_timestamp)),
                     "sync_timestamp": str(mediatimestamp(sync_timestamp)),
                     "creation_timestamp": str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index b183e66..da42522 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -132,8 +132,8 @@ append(path, pre=None, post=None)
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     "grain_type": "event",
-                    "source_id": str(src_id),
-                    "flow_id": str(flow_id),
+                    "source_id": str(src_id if src_id is not None else UUID(int=0)),
+                    "flow_id": str(flow_id if flow_id is not None else UUID(int=0)),
                     "origin_timestamp": str(mediatimestamp(origin_timestamp)),
                     "sync_timestamp": str(mediatimestamp(sync_timestamp)),
                     "creation_timestamp": str(mediatimestamp(cts)),
diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index c54124e..3c4bbe8 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -280,8 +280,8 @@ length
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "video",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
-- 
2.43.0


From cd3f0673d33e5034eb5940174e85a92f62fc3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 030/106] fix: leave an event grain unchanged when a payload
 turns out to be malformed

---
 mediagrains/grains/EventGrain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index da42522..4b48f1d 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -205,16 +205,18 @@ append(path, pre=None, post=None)
 
         if 'type' not in payload or 'topic' not in payload or 'data' not in payload:
             raise ValueError("incorrectly formated event payload")
-        self.event_type = payload['type']
-        self.topic = payload['topic']
-        self.meta['grain']['event_payload']['data'] = []
+        data: List[EventGrainDatumDict] = []
         for datum in payload['data']:
             d: EventGrainDatumDict = {'path': datum['path']}
             if 'pre' in datum:
                 d['pre'] = datum['pre']
             if 'post' in datum:
                 d['post'] = datum['post']
-            self.meta['grain']['event_payload']['data'].append(d)
+            data.append(d)
+        # Nothing is replaced until all of the payload is known to be usable
+        self.event_type = payload['type']
+        self.topic = payload['topic']
+        self.meta['grain']['event_payload']['data'] = data
         self._data_fetcher_coroutine = None
 
     def __repr__(self) -> str:
-- 
2.43.0


From edaee6bcc2393fe77d7741304dee9b8ee5efbc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 031/106] fix: allow an absent pre value of an event item to be
 set to None

---
 mediagrains/grains/EventGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 4b48f1d..f956d0a 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -304,7 +304,7 @@ post
         def pre(self, value: Optional[MediaJSONSerialisable]) -> None:
             if value is not None:
                 self.meta['pre'] = value
-            else:
+            elif 'pre' in self.meta:
                 del self.meta['pre']
 
         @property
-- 
2.43.0


From 2ef45836f128fb0bc20c5af1e1b6e5f380e21add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 032/106] fix: convert an event grain to the bytes of its
 payload

---
 mediagrains/grains/EventGrain.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index f956d0a..34fcd59 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -186,6 +186,13 @@ append(path, pre=None, post=None)
                            'topic': self.topic,
                            'data': [dict(datum) for datum in self.event_data]}).encode('utf-8')
 
+    def __bytes__(self) -> bytes:
+        return self.data
+
+    def has_data(self) -> bool:
+        # The payload is held in the metadata, unless it has yet to be fetched
+        return self._data_fetcher_coroutine is None
+
     def __await__(self) -> Generator[Any, None, bytes]:
         async def __inner():
             if self._data_fetcher_coroutine is not None:
-- 
2.43.0


From a4edc3d59ca536abbdd82af3919f3b42c7d29617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 033/106] fix: copy an event grain without rewriting the
 original's event list

---
 mediagrains/grains/Grain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 0223495..9434990 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -385,10 +385,10 @@ media_rate
         return not (self == other)
 
     def __copy__(self) -> "Grain":
-        return self._share_absent_data(GrainFactory(copy(self.meta), self.data))
+        return self._share_absent_data(GrainFactory(copy(self.meta), self._data))
 
     def __deepcopy__(self, memo) -> "Grain":
-        return self._share_absent_data(GrainFactory(deepcopy(self.meta), deepcopy(self.data)), deepcopy)
+        return self._share_absent_data(GrainFactory(deepcopy(self.meta), deepcopy(self._data)), deepcopy)
 
     def _share_absent_data(self, other: "Grain", duplicate: Optional[Callable[[Any], Any]] = None) -> "Grain":
         """Gives a new copy of this grain no data if this grain has none yet, and the means to be populated with it if
-- 
2.43.0


From 5d2782b6394c482e9bc83c4651dcb917def2dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 034/106] fix: size the chroma components of pictures with odd
 dimensions by their own width and height

---
 mediagrains/grains/VideoGrain.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 3c4bbe8..1227711 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -315,7 +315,7 @@ length
                     bpv = 2
                 else:
                     bpv = 4
-                return (w*h + 2*((w*h) >> (h_shift + v_shift)))*bpv
+                return (w*h + 2*(w >> h_shift)*(h >> v_shift))*bpv
             else:
                 if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
                     return w*h*2
@@ -366,17 +366,17 @@ length
                     'offset': offset,
                     'width': w >> h_shift,
                     'height': h >> v_shift,
-                    'length': ((w*h) >> (h_shift + v_shift))*bpv
+                    'length': (w >> h_shift)*(h >> v_shift)*bpv
                 })
-                offset += ((w*h) >> (h_shift + v_shift))*bpv
+                offset += (w >> h_shift)*(h >> v_shift)*bpv
                 components.append({
                     'stride': (w >> h_shift)*bpv,
                     'offset': offset,
                     'width': w >> h_shift,
                     'height': h >> v_shift,
-                    'length': ((w*h) >> (h_shift + v_shift))*bpv
+                    'length': (w >> h_shift)*(h >> v_shift)*bpv
                 })
-                offset += ((w*h) >> (h_shift + v_shift))*bpv
+                offset += (w >> h_shift)*(h >> v_shift)*bpv
             else:
                 if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
                     components.append({
-- 
2.43.0


From 79d9b3d83f0b3be49a75413359278443a85fe3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 035/106] fix: size AYUV pictures at the four bytes per pixel
 the format has

---
 mediagrains/grains/VideoGrain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 1227711..8b9cdcb 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -317,7 +317,7 @@ length
                     bpv = 4
                 return (w*h + 2*(w >> h_shift)*(h >> v_shift))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     return w*h*2
                 elif fmt in (CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
@@ -326,7 +326,8 @@ length
                              CogFrameFormat.BGRx,
                              CogFrameFormat.BGRA,
                              CogFrameFormat.xBGR,
-                             CogFrameFormat.ABGR):
+                             CogFrameFormat.ABGR,
+                             CogFrameFormat.AYUV):
                     return w*h*4
                 elif fmt == CogFrameFormat.RGB:
                     return w*h*3
@@ -378,7 +379,7 @@ length
                 })
                 offset += (w >> h_shift)*(h >> v_shift)*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     components.append({
                         'stride': w*2,
                         'offset': 0,
@@ -393,7 +394,8 @@ length
                              CogFrameFormat.BGRx,
                              CogFrameFormat.BGRA,
                              CogFrameFormat.xBGR,
-                             CogFrameFormat.ABGR):
+                             CogFrameFormat.ABGR,
+                             CogFrameFormat.AYUV):
                     components.append({
                         'stride': w*4,
                         'offset': 0,
-- 
2.43.0


From 81dfc016435fd27ac11abca3c1d40aeafa2bc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 036/106] fix: give BGRA pictures the component arrays of BGRx
 pictures

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 299a3e0..b864a90 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -46,7 +46,7 @@ def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
                  CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx,
+                 CogFrameFormat.BGRA,
                  CogFrameFormat.ARGB,
                  CogFrameFormat.xRGB,
                  CogFrameFormat.ABGR,
@@ -188,7 +188,7 @@ def _component_arrays_for_data_and_type(
     elif fmt in [CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx]:
+                 CogFrameFormat.BGRA]:
         # 8 bit 4:4:4:4 four components interleave dropping the fourth component
         return _component_arrays_for_interleaved_444_take_three(data,
                                                                 data[1:],
-- 
2.43.0


From 5542cf8b4c46cf7ff2dba9b8e06927fd9f9c1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 037/106] fix: leave the data of planar 24-bit audio as it was
 when making its channel arrays

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 5fcc5cb..48c9a39 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -68,8 +68,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples
-            data = data.view(np.int32)
-            data <<= 8
+            data = data.view(np.int32) << 8
         sample_bytes = 4
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
-- 
2.43.0


From 874eeabd7bb300335d8d0748d95673240753dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 038/106] fix: give access to no component or channel arrays
 when there is too little data for them

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 4 +++-
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 48c9a39..eeb894d 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -56,8 +56,10 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
 
     24-bit samples are widened to 32-bit. Planar 24-bit samples held in the lower part of 32-bit are shifted to the
     upper part.
+
+    An empty list is returned when there is less data than the samples and channels need.
     """
-    if data is None:
+    if data is None or data.nbytes < bytesgrain.size_for_audio_format(format, channels, samples):
         return []
     if COG_AUDIO_IS_INT(format) and COG_AUDIO_FORMAT_DEPTH(format) == COG_AUDIO_FORMAT_DEPTH_S24:
         if COG_AUDIO_FORMAT_SAMPLEBYTES(format) == 3:
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index b864a90..741405d 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -157,9 +157,9 @@ def _component_arrays_for_data_and_type(
     the source data array.
 
     For weird packed formats like v210 nothing can be done, an empty list is returned since no individual component
-    access is possible.
+    access is possible. The same is returned when there is less data than the components describe.
     """
-    if data is None:
+    if data is None or any(component.offset + component.length > data.nbytes for component in components):
         return []
 
     if COG_FRAME_IS_PLANAR(fmt):
-- 
2.43.0


From ae4df53e4c07df9ec403aabd5f5113161294fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 039/106] fix: begin the component arrays of packed formats at
 the offset of the component

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 741405d..649627c 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -168,7 +168,10 @@ def _component_arrays_for_data_and_type(
                        shape=(component.height, component.width),
                        strides=(component.stride, data.itemsize)).transpose()
             for component in components]
-    elif fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
+
+    # There is a single component in all of the other formats
+    data = data[components[0].offset//data.itemsize:] if len(components) > 0 else data
+    if fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
         # Either 8 or 16 bits 4:2:2 interleavedd in UYVY order
         return _component_arrays_for_interleaved_422(
             data[1:], data, data[2:], components[0].width, components[0].height, components[0].stride, data.itemsize)
-- 
2.43.0


From 04af7a9a245f3d28fca8999617ee76b414f8b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 040/106] fix: let an array grain made from a grain whose data
 is not loaded yet be populated with it

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 1 +
 mediagrains/numpy/numpy_grains/VideoGrain.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index eeb894d..76bfb7b 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -131,6 +131,7 @@ class AudioGrain (bytesgrain.AudioGrain):
             meta = grain.meta
             data = grain.data
             super().__init__(meta=meta, data=data)
+            grain._share_absent_data(self)
         else:
             if args and len(args) == 2:
                 meta = cast(AudioGrainMetadataDict, args[0])
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 649627c..ec2c591 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -249,6 +249,7 @@ class VideoGrain (bytesgrain.VideoGrain):
             meta = grain.meta
             data = grain.data
             super().__init__(meta, data)
+            grain._share_absent_data(self)
         else:
             if args and len(args) == 2:
                 meta = cast(VideoGrainMetadataDict, args[0])
-- 
2.43.0


From 718cfb0af3a52420cfc5173f8b946911c8f31884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 041/106] fix: saturate when rounding the highest values to a
 lower bit depth

---
 mediagrains/numpy/convert.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index 2a0c925..db38d4d 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -100,30 +100,27 @@ def _simple_duplicate_convert_yuv420__yuv422(grain_in: VideoGrain, grain_out: Vi
 
 
 # Bit depth conversions
-def _unbiased_right_shift(a: np.ndarray, n: int) -> np.ndarray:
-    return (a >> n) + ((a >> (n - 1)) & 0x1)
+def _unbiased_right_shift(a: np.ndarray, n: int, bits: int) -> np.ndarray:
+    # Rounding up the highest values would need more bits than the result has
+    return np.minimum((a >> n) + ((a >> (n - 1)) & 0x1), (1 << bits) - 1)
 
 
 def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-    bitshift = (
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
-    )
+    bits = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
+    bitshift = COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) - bits
 
-    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift)
-    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift)
-    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift)
+    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift, bits)
+    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift, bits)
+    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift, bits)
 
 
 def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-    bitshift = (
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
-    )
+    bits = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
+    bitshift = COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) - bits
 
-    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift)
-    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift)
-    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift)
+    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift, bits)
+    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift, bits)
+    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift, bits)
 
 
 def _noisy_left_shift(a: np.ndarray, n: int) -> np.ndarray:
-- 
2.43.0


From 1473f69bd5d8bab326fcb8792c0f85131a8e0afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 042/106] fix: clamp converted colours to the highest code of
 the format

---
 mediagrains/numpy/convert.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index db38d4d..1eadee1 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -163,11 +163,11 @@ def _convert_rgb_to_yuv444(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((R*0.2126 + G*0.7152 + B*0.0722),
-            0, 1 << bd, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
     np.clip((R*-0.114572 - G*0.385428 + B*0.5 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.U, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.U, casting="unsafe")
     np.clip((R*0.5 - G*0.454153 - B*0.045847 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.V, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.V, casting="unsafe")
 
 
 def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -178,11 +178,11 @@ def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((Y + V*1.5748),
-            0, 1 << bd, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
     np.clip((Y - U*0.187324 - V*0.468124),
-            0, 1 << bd, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
     np.clip((Y + U*1.8556),
-            0, 1 << bd, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
 
 
 def _convert_v210_to_yuv422_10bit(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-- 
2.43.0


From 623739d0527057c39ed2b4a71871d1c29dc877d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 043/106] fix: compare the bytes of grain data rather than the
 values decoded from them

---
 mediagrains/comparison/_internal.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index e8a7516..262f911 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -259,6 +259,10 @@ class DataEqualityComparisonResult(ComparisonResult):
         if b is not None:
             b = bytes(b)
 
+        # The decoded values cannot settle equality: not a number differs from itself, and an incomplete word at the
+        # end of the data is not decoded at all
+        self._data_equal = (a == b)
+
         def _signer(n):
             OFL = 1 << (words_per_sample*8)
             MAX = OFL >> 1
@@ -274,10 +278,16 @@ class DataEqualityComparisonResult(ComparisonResult):
             return x
 
         if words_per_sample == 1:
+            word_size = struct.calcsize(alignment + word_code)
+
+            def unpacker(t):
+                words = len(t)//word_size
+                return struct.unpack(alignment + (word_code*words), t[:words*word_size])
+
             if a is not None:
-                a = struct.unpack(alignment + (self.word_code*(len(a)//struct.calcsize(word_code))), a)
+                a = unpacker(a)
             if b is not None:
-                b = struct.unpack(alignment + (self.word_code*(len(b)//struct.calcsize(word_code))), b)
+                b = unpacker(b)
         else:
             if alignment == ">" or alignment == "!" or (alignment in ['@', '='] and sys.byteorder != 'little'):
                 aligner = id
@@ -314,11 +324,15 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (False, "For speed reasons not comparing {} and {} when this would be excluded".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
-        self.d = SequenceMatcher(None, a, b)
-        if self.d.ratio() == 1.0:
+        if self._data_equal:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
-            first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
+            self.d = SequenceMatcher(None, a, b)
+            first_op = next((x for x in self.d.get_opcodes() if x[0] != 'equal'), None)
+            if first_op is None:
+                return (False, "Binary data {} and {} have equal values but differ in their bytes".format(
+                    self._identifier.format('a'), self._identifier.format('b')), [])
+
             i = first_op[1]
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
-- 
2.43.0


From 471f3abe5d99bffec7272aa5f588c4512e8ac748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 044/106] fix: name the payload attribute in PSNR comparison
 results

---
 mediagrains/comparison/_internal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 262f911..ef2bded 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -665,7 +665,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 words_per_sample = 1
                 force_signed = False
@@ -756,7 +757,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 if COG_FRAME_IS_COMPRESSED(a.cog_frame_format):
                     word_code = 'B'
-- 
2.43.0


From 65dfb824e361f11d563a88d53b3c4e924c1ca379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 045/106] fix: grains of different dimensions do not match
 under a PSNR option, instead of raising

---
 mediagrains/comparison/_internal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index ef2bded..a9eb735 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -458,6 +458,9 @@ class PSNRComparisonResult(ComparisonResult):
         except NotImplementedError:
             return (False, "Grain is not supported for PSNR comparison of {} and {}".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
+        except AttributeError as e:
+            return (False, "No PSNR comparison of {} and {} is possible: {}".format(
+                self._identifier.format('a'), self._identifier.format('b'), e), [])
 
         if all(opt.matcher(psnr) for opt in opts):
             return (True, "PSNR({}, {}) == {!r}, meets requirements set in options".format(
-- 
2.43.0


From 6efee46d199a152c93ffb6a331eb02bd86fe15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 046/106] fix: refuse to compute a PSNR of absent or
 incommensurable components

---
 mediagrains/comparison/psnr.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mediagrains/comparison/psnr.py b/mediagrains/comparison/psnr.py
index 63cffe3..2276f1a 100644
--- a/mediagrains/comparison/psnr.py
+++ b/mediagrains/comparison/psnr.py
@@ -32,6 +32,7 @@ from mediagrains.cogenums import (
 from mediagrains.grains.Grain import Grain
 from mediagrains.numpy.numpy_grains import VideoGrain as numpy_VideoGrain
 from mediagrains.numpy.numpy_grains import AudioGrain as numpy_AudioGrain
+from mediagrains.numpy.numpy_grains.VideoGrain import _component_arrangement_from_format
 
 __all__ = ["compute_psnr"]
 
@@ -86,6 +87,10 @@ def _compute_audio_psnr(grain_a: Union[AudioGrain, numpy_AudioGrain],
     if not isinstance(grain_b, numpy_AudioGrain):
         grain_b = numpy_AudioGrain(grain=grain_b)
 
+    for grain in (grain_a, grain_b):
+        if grain.data is None or len(grain.channel_data) != grain.channels:
+            raise NotImplementedError("PSNR is not supported without data for every channel")
+
     if max_val is None:
         if COG_AUDIO_IS_FLOAT(grain_a.format) or COG_AUDIO_IS_DOUBLE(grain_a.format):
             max_val = 1.0
@@ -125,6 +130,17 @@ def _compute_video_psnr(grain_a: Union[VideoGrain, numpy_VideoGrain],
     if not isinstance(grain_b, numpy_VideoGrain):
         grain_b = numpy_VideoGrain(grain=grain_b)
 
+    for grain in (grain_a, grain_b):
+        if len(grain.component_data) == 0:
+            raise NotImplementedError("PSNR is not supported without access to the data of every component")
+    if (
+        COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format) != COG_FRAME_FORMAT_ACTIVE_BITS(grain_b.cog_frame_format)
+        or (_component_arrangement_from_format(grain_a.cog_frame_format) !=
+            _component_arrangement_from_format(grain_b.cog_frame_format))
+        or [c.shape for c in grain_a.component_data] != [c.shape for c in grain_b.component_data]
+    ):
+        raise NotImplementedError("PSNR over formats with different components is not supported")
+
     if max_val is None:
         max_val = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format)) - 1
 
-- 
2.43.0


From eec48bd8516695dd71ec399141f41abdaad34a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 047/106] fix: return only the last comparison of grain
 iterators which are empty or differ in length

---
 mediagrains/comparison/_internal.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index a9eb735..91ba959 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -548,6 +548,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         all_success = True
 
         children: list[ComparisonResult] = []
+        comparison_result: ComparisonResult
 
         while True:
             A = next(a, None)
@@ -556,29 +557,24 @@ class GrainIteratorComparisonResult(ComparisonResult):
             if A is None and B is None:
                 break
             elif A is None:
-                children.append(BOnlyComparisonResult("{}", B, options=self._options, key=self.compared_item_count))
-                all_success = False
-                break
+                comparison_result = BOnlyComparisonResult(
+                    "{}", B, options=self._options, key=self.compared_item_count)
             elif B is None:
-                children.append(AOnlyComparisonResult("{}", A, options=self._options, key=self.compared_item_count))
-                all_success = False
-                break
+                comparison_result = AOnlyComparisonResult(
+                    "{}", A, options=self._options, key=self.compared_item_count)
             else:
                 comparison_result = GrainComparisonResult(
                     "{}", A, B, options=self._options, key=self.compared_item_count)
                 self.compared_item_count += 1
 
-                if self.return_last_only:
-                    last_comparison = comparison_result
-                else:
-                    children.append(comparison_result)
-
-                if not comparison_result:
-                    all_success = False
-                    break
+            if self.return_last_only:
+                children = [comparison_result]
+            else:
+                children.append(comparison_result)
 
-        if self.return_last_only and last_comparison is not None:
-            children.append(last_comparison)
+            if not comparison_result:
+                all_success = False
+                break
 
         if all_success:
             return (
-- 
2.43.0


From 4b0f4a2f0244dd09bc404baa84693f876960a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 048/106] fix: honour expected differences of integer
 attributes

---
 mediagrains/comparison/_internal.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 91ba959..97ff17a 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -22,6 +22,7 @@ from mediatimestamp.immutable import TimeOffset, Timestamp
 from difflib import SequenceMatcher
 
 from functools import reduce
+from numbers import Number
 import struct
 import sys
 
@@ -224,7 +225,16 @@ class ComparisonResult(Generic[CR]):
 
 class EqualityComparisonResult(ComparisonResult):
     def compare(self, a, b) -> tuple[bool, str, list[ComparisonResult]]:
-        if a == b:
+        opts = [option for option in self.ownoptions() if isinstance(option, ComparisonExpectDifferenceMatches)]
+        if len(opts) > 0 and isinstance(a, Number) and isinstance(b, Number):
+            diff = a - b  # type: ignore
+            if all(opt.matcher(diff) for opt in opts):
+                return (True, "{} - {} == {!r}, meets requirements set in options".format(
+                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+            else:
+                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
+                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+        elif a == b:
             return (True, "{} == {!r}".format(self._identifier.format('<a/b>'), a), [])
         else:
             return (False, "{} == {!r}, {} == {!r} no match".format(
-- 
2.43.0


From 3bcef37f40770bfdb04db3458122bb8196e4d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 049/106] fix: compare creation timestamps when a difference is
 expected of them

---
 mediagrains/comparison/_internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 97ff17a..299a4ae 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -837,7 +837,10 @@ class GrainComparisonResult(ComparisonResult):
     def compare(self, a: Grain, b: Grain) -> tuple[bool, str, list[ComparisonResult]]:
         children: dict[str, ComparisonResult] = {}
 
-        if Include.creation_timestamp not in self._options:
+        if Include.creation_timestamp not in self._options and not any(
+            isinstance(option, ComparisonExpectDifferenceMatches) and
+            option.path == self._identifier + '.creation_timestamp' for option in self._options
+        ):
             self._options.append(Exclude.creation_timestamp)
 
         for key in ['grain_type',
-- 
2.43.0


From db7f1f39435ab1e04698f19b1bcae06e6836a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 050/106] fix: combine expected differences with & and |

---
 mediagrains/comparison/options.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/mediagrains/comparison/options.py b/mediagrains/comparison/options.py
index c55637a..96fa228 100644
--- a/mediagrains/comparison/options.py
+++ b/mediagrains/comparison/options.py
@@ -84,30 +84,6 @@ class _ExpectedDifference(object):
         return ComparisonExpectDifferenceMatches(
             self.path, lambda x: x >= other, "{} >= {!r}".format('ExpectedDifference', other))
 
-    def __and__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} & {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with & they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
-
-    def __or__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} | {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with | they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
-
     def __getattr__(self, attr):
         if attr.startswith('__') and attr.endswith('__'):
             raise AttributeError
@@ -196,6 +172,30 @@ class ComparisonExpectDifferenceMatches(ComparisonOption):
     def __repr__(self):
         return self._repr
 
+    def __and__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} & {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with & they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
+
+    def __or__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} | {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with | they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
+
 
 class ComparisonPSNR(ComparisonOption):
     def __init__(self, path, matcher, _repr):
-- 
2.43.0


From 010f3541f225d146e10e2edda67fb91982afca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 051/106] fix: draw eight bars and steps across pictures of any
 width

---
 mediagrains/patterngenerators/video/colourbars.py | 2 +-
 mediagrains/patterngenerators/video/lumasteps.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 78ec154..eda0b5e 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -59,7 +59,7 @@ class ColourBars(StillPatternGenerator):
             bytearray(vg.components[2].width*_bpp)]
         for c in range(0, 3):
             for x in range(0, vg.components[c].width):
-                pos = x//(vg.components[c].width//_steps)
+                pos = (x*_steps)//vg.components[c].width
                 if _bpp == 1:
                     lines[c][x] = values[pos][c]
                 elif _bpp == 2:
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 5c39ed1..c740f4f 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -47,7 +47,7 @@ class LumaSteps(StillPatternGenerator):
 
         line = bytearray(width*_bpp)
         for x in range(0, width):
-            pos = x//(width//_steps)
+            pos = (x*_steps)//width
             if _bpp == 1:
                 line[x] = (_offset + ((pos * _range)//_steps)) & 0xFF
             elif _bpp == 2:
-- 
2.43.0


From 8b6b510f0d9b0835fe4bbcf87f16eebe79445b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 052/106] fix: give pattern grains the duration which follows
 from their rate

---
 mediagrains/patterngenerators/audio/tone.py       | 1 +
 mediagrains/patterngenerators/video/colourbars.py | 1 +
 mediagrains/patterngenerators/video/lumasteps.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index f0c38fe..e5afb52 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -174,6 +174,7 @@ class Tone(AudioPatternGenerator):
             samples=self.samples,
             channels=self.channels,
             rate=self.rate,
+            duration=1/self.rate,
             sample_rate=self.sample_rate)
 
         ag.data = bytearray(self._get_samples(offs)[:ag.expected_length])
diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index eda0b5e..335f5dc 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -48,6 +48,7 @@ class ColourBars(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index c740f4f..0d3c511 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -40,6 +40,7 @@ class LumaSteps(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
-- 
2.43.0


From 67a091a4108babb92845545792b29487af7684d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 053/106] fix: moving bar overlay has no grain between those of
 its source

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 1df7f13..09c961d 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -67,11 +67,11 @@ class MovingBarOverlay (VideoPatternGenerator):
         self._bar = bar
 
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
-        tv = TimeValue(key, rate=self.rate)
+        grain = self._source.get(key)
 
-        grain = self._source[tv]
-
-        if grain is not None:
+        if grain is None:
+            return default
+        else:
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
-- 
2.43.0


From 53519ab73d2d2ba4e67f0610e5a43b3b1f780825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 054/106] fix: tone samples in S24_PLANES occupy four bytes

---
 mediagrains/patterngenerators/audio/tone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index e5afb52..24948ae 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -146,6 +146,9 @@ class Tone(AudioPatternGenerator):
 
             if depth == 16:
                 self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+            elif depth == 24 and planes:
+                # Each sample occupies four bytes in this format
+                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-- 
2.43.0


From 4c06f48470a3d35e6b9debaadc99e7c52eea0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 055/106] fix: clip tones of full volume to the range of the
 sample format

---
 mediagrains/patterngenerators/audio/tone.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 24948ae..dc5beb9 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -82,25 +82,29 @@ class Tone(AudioPatternGenerator):
         ]:
             raise ValueError("Unsupported cog audio format")
 
+    def _integer_samples(self, depth: int) -> List[int]:
+        limit = 1 << (depth - 1)
+        return [max(-limit, min(limit - 1, round(x*self.volume*limit))) for x in self._sample_values]
+
     def _get_samples(self, offs: int) -> bytes:
         if offs not in self.data_samples:
-            formatted_sample_data: List[float]
+            formatted_sample_data: Union[List[int], List[float]]
             depth: Union[int, str]
 
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 15)) for x in self._sample_values]
+                formatted_sample_data = self._integer_samples(16)
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 23)) for x in self._sample_values]
+                formatted_sample_data = self._integer_samples(24)
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 31)) for x in self._sample_values]
+                formatted_sample_data = self._integer_samples(32)
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
-- 
2.43.0


From 3a2a2e9f1bc767c24bf6b8dfa0cfdd68a335fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 056/106] fix: generate tones of an odd number of channels in
 pairs

---
 mediagrains/patterngenerators/audio/tone.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index dc5beb9..82fbf0b 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -144,23 +144,23 @@ class Tone(AudioPatternGenerator):
             if planes:
                 line = line * self.channels
             elif pairs:
-                line = [x for x in line for _ in range(0, 2)] * (self.channels//2)
+                line = [x for x in line for _ in range(0, 2)] * ((self.channels + 1)//2)
             elif interleaved:
                 line = [x for x in line for _ in range(0, self.channels)]
 
             if depth == 16:
-                self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24 and planes:
                 # Each sample occupies four bytes in this format
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-                self.data_samples[offs] = struct.pack('@' + ('f'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('f'*len(line)), *line)
             elif depth == 'd':
-                self.data_samples[offs] = struct.pack('@' + ('d'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('d'*len(line)), *line)
 
         return self.data_samples[offs]
 
-- 
2.43.0


From 0232261f62f7f8a4fbd48502a5a9ac535b66f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 057/106] fix: return the default where there is no tone grain

---
 mediagrains/patterngenerators/audio/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 82fbf0b..d56c724 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -169,7 +169,7 @@ class Tone(AudioPatternGenerator):
         sample_count = tv.as_count()
 
         if sample_count % self.samples != 0:
-            return None
+            return default
 
         offs = sample_count % self.looplen
 
-- 
2.43.0


From d1e5c353e9e60b05658fb93c79177e6823c86030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 058/106] fix: still patterns have no grain between those of
 their rate

---
 mediagrains/patterngenerators/video/still.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/video/still.py b/mediagrains/patterngenerators/video/still.py
index fc3f7bc..0b0c71c 100644
--- a/mediagrains/patterngenerators/video/still.py
+++ b/mediagrains/patterngenerators/video/still.py
@@ -40,7 +40,8 @@ class StillPatternGenerator (VideoPatternGenerator):
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
         tv = TimeValue(key, rate=self.rate)
 
-        if tv == key:
+        # Comparing the time values would convert the key to the rate, and so always succeed
+        if tv.as_timestamp() == key.as_timestamp():
             grain = deepcopy(self._template_grain)
             grain.origin_timestamp = key.as_timestamp()
             grain.sync_timestamp = grain.origin_timestamp
-- 
2.43.0


From 0d7f3ca7a93fca8606f84750b9f63c6cc4f99b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 059/106] fix: return what is left when piped input ends within
 a read

---
 mediagrains/tools/_file_or_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index f8d335d..25272a8 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -29,14 +29,14 @@ class InputStreamWrapper(BufferedIOBase):
 
     def read(self, size=-1) -> bytes:
         out = b""
-        if size == -1:
+        if size is None or size < 0:
             out = self._file.read(-1)
         else:
             s = size
             while len(out) < size:
                 b = self._file.read(s)
                 if len(b) == 0:
-                    raise EOFError
+                    break
                 s -= len(b)
                 out += b
 
-- 
2.43.0


From 29c3c4a2ea91ce8a33007bd76fe2e4e70cd14191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 060/106] fix: assemble whole frames when the input is
 delivered in pieces

---
 mediagrains/utils/grain_wrapper.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 7b941fc..28800f2 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -25,6 +25,25 @@ from mediatimestamp.immutable import TimeRange
 from mediagrains.grains import Grain
 
 
+def read_fully(input_data: typing.IO[bytes], size: typing.Optional[int]) -> bytes:
+    """Read a number of bytes from an input which may return fewer at a time
+
+    :param input_data: An object to read data from
+    :param size: The number of bytes to read, or None for all there are
+    :returns: The bytes, fewer than size only when the input has ended
+    """
+    data = input_data.read() if size is None else input_data.read(size)
+    while data and size is not None and len(data) < size:
+        try:
+            more = input_data.read(size - len(data))
+        except EOFError:
+            break
+        if not more:
+            break
+        data += more
+    return data
+
+
 class GrainWrapper():
     """Raw input and wrap it in Grains"""
     def __init__(
@@ -56,7 +75,7 @@ class GrainWrapper():
             new_grain.origin_timestamp = timestamp
 
             try:
-                grain_data = self.input_data.read(self.frame_size)
+                grain_data = read_fully(self.input_data, self.frame_size)
             except EOFError:
                 break
 
-- 
2.43.0


From 310234eee5a45641706037bd07e163da228910ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 061/106] fix: assemble whole AAC frames when the input is
 delivered in pieces or ends early

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index b137da5..82de663 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -23,6 +23,7 @@ from fractions import Fraction
 from mediatimestamp.immutable import TimeRange
 
 from ..grains import Grain, CodedAudioGrain
+from .grain_wrapper import read_fully
 from .adts_aac_parser import ADTSAACParser, FrameInfo, MIN_ADTS_HEADER_SIZE
 
 
@@ -51,12 +52,13 @@ class ADTSAACGrainWrapper(object):
         adts_aac_parser = ADTSAACParser()
 
         while True:
-            frame_data = self.input_data.read(MIN_ADTS_HEADER_SIZE)
-            if not frame_data:
+            frame_data = read_fully(self.input_data, MIN_ADTS_HEADER_SIZE)
+            if len(frame_data) < MIN_ADTS_HEADER_SIZE:
+                # The input ended, possibly within a header
                 break
 
             frame_info = adts_aac_parser.parse_header(frame_data)
-            frame_data += self.input_data.read(frame_info.frame_size - len(frame_data))
+            frame_data += read_fully(self.input_data, frame_info.frame_size - len(frame_data))
 
             yield (frame_data, frame_info)
 
-- 
2.43.0


From d6efd5c859febd73686dcf001ebc126b29c77380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 062/106] fix: give every wrapped grain its own sync timestamp

---
 mediagrains/utils/grain_wrapper.py      | 1 +
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 28800f2..14c3ff3 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -73,6 +73,7 @@ class GrainWrapper():
         for timestamp in grain_timerange.at_rate(self.template_grain.rate):
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = timestamp
+            new_grain.sync_timestamp = timestamp
 
             try:
                 grain_data = read_fully(self.input_data, self.frame_size)
diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index 86cde04..abd9aca 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -146,6 +146,7 @@ class H264GrainWrapper(object):
 
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = norm_origin_ts
+            new_grain.sync_timestamp = norm_origin_ts
             if frame_info is not None:
                 new_grain.is_key_frame = frame_info.key_frame
             else:
-- 
2.43.0


From 75e0eeff645816c36f67e68d66b073160ead734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 063/106] fix: wrapped H.264 grains last as long as the
 stream's frame rate says

---
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index abd9aca..f86cbba 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -136,6 +136,7 @@ class H264GrainWrapper(object):
                         self.template_grain.coded_height = 0
                 if frame_info.frame_rate is not None:
                     self.template_grain.rate = frame_info.frame_rate
+                    self.template_grain.duration = 1/self.template_grain.rate
 
         rate = self.template_grain.rate
         norm_origin_ts = self.template_grain.origin_timestamp.normalise(rate.numerator, rate.denominator)
-- 
2.43.0


From 8962a16c8bd364a9ecae778ae6186cc7df717366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 064/106] fix: slices of one H.264 picture may differ in
 non-zero nal_ref_idc

---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4b53589..79e185a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -201,7 +201,7 @@ class H264Parser(object):
                                     (slice_header.field_pic_flag and
                                         slice_header.bottom_field_flag != first_slice_header.bottom_field_flag) or
                                     (slice_header.nal_ref_idc != first_slice_header.nal_ref_idc and
-                                        (slice_header.nal_ref_idc != 0 or first_slice_header.nal_ref_idc != 0)) or
+                                        (slice_header.nal_ref_idc == 0 or first_slice_header.nal_ref_idc == 0)) or
                                     slice_header.idr_pic_flag != first_slice_header.idr_pic_flag or
                                     (slice_header.idr_pic_flag == 1 and
                                         slice_header.idr_pic_id != first_slice_header.idr_pic_id) or
-- 
2.43.0


From bcc9d40a786c075c526a8f5cec84f62252083920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 065/106] fix: size of slice_group_id in H.264 picture
 parameter sets

---
 mediagrains/utils/h264_parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 79e185a..5408b1c 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -593,10 +593,8 @@ class H264Parser(object):
             elif slice_group_map_type == 6:
                 pic_size_in_map_units_minus1 = rbsp_bits.read('ue')
                 for _ in range(0, pic_size_in_map_units_minus1 + 1):
-                    value = pic_size_in_map_units_minus1 + 1
-                    bits_required = 63
-                    while bits_required and not (value & (1 << bits_required)):
-                        bits_required -= 1
+                    # Ceil(Log2(num_slice_groups_minus1 + 1)) bits
+                    bits_required = num_slice_groups_minus1.bit_length()
                     rbsp_bits.read('uint:{}'.format(bits_required))  # slice_group_id[]
         rbsp_bits.read('ue')  # num_ref_idx_l0_default_active_minus1
         rbsp_bits.read('ue')  # num_ref_idx_l1_default_active_minus1
-- 
2.43.0


From a07aaa2293aaf0cb82500fce99d9c7947bb96933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 066/106] fix: accept an unspecified H.264 sample aspect ratio

---
 mediagrains/utils/h264_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 5408b1c..a1107d7 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -429,6 +429,8 @@ class H264Parser(object):
         ]
 
         if sps.aspect_ratio_idc == 255:  # extended SAR
+            if sps.sar_width == 0 or sps.sar_height == 0:
+                return Fraction(0, 1)  # unspecified
             return Fraction(sps.sar_width, sps.sar_height)
         elif sps.aspect_ratio_idc < len(aspect_ratios):
             return Fraction(aspect_ratios[sps.aspect_ratio_idc][0], aspect_ratios[sps.aspect_ratio_idc][1])
-- 
2.43.0


From 88fd5219307ccdc3cdbc5863d1de1c216ef459ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 067/106] fix: wrap raw audio at the rate its grains have

---
 mediagrains/tools/wrap_in_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index dd508d3..0b6e62a 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -175,7 +175,7 @@ def wrap_audio_in_gsf():
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            rate=1/duration
         )
         Wrapper = GrainWrapper
 
-- 
2.43.0


From 2fe8a32c9ff647b1bea87ec6401f0e19b122686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 068/106] fix: wrap AAC audio without the sample rate and
 samples per grain being given

---
 mediagrains/tools/wrap_in_gsf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index 0b6e62a..0f07289 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -148,11 +148,10 @@ def wrap_audio_in_gsf():
     source_id = args.source_id if args.source_id else uuid.uuid4()
 
     if args.format == CogAudioFormat.AAC:
-        duration = fractions.Fraction(args.samples_per_grain, args.sample_rate)
-
+        # The wrapper determines the rate and duration from the first frame
         template_grain = CodedAudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate,
-            duration=duration, channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
+            duration=fractions.Fraction(0, 1), channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
             rate=fractions.Fraction(0, 1)
         )
         Wrapper = ADTSAACGrainWrapper
-- 
2.43.0


From c30b5424b25f247687b178f3bae1804cb22aa1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 069/106] fix: wrap AAC audio in a template with the default
 number of samples

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index 82de663..3f6f6da 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -78,7 +78,7 @@ class ADTSAACGrainWrapper(object):
         else:
             self.template_grain.channels = frame_info.channels
             self.template_grain.sample_rate = frame_info.sample_rate
-            if self.template_grain.samples is None:
+            if not self.template_grain.samples:
                 # Assuming 1024 samples per coded frame.
                 # Use the --samples-per-grain option to override it to be 2048
                 self.template_grain.samples = 1024
-- 
2.43.0


From cce25a5d82d9e49db570b01b61e18be0ca0a5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 070/106] fix: wrapped AAC audio starts at the origin timestamp

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index 3f6f6da..8578258 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -18,9 +18,10 @@ This can be used for tasks like piping the output of ffmpeg (or similar) into a
 """
 import typing
 import copy
+import itertools
 from fractions import Fraction
 
-from mediatimestamp.immutable import TimeRange
+from mediatimestamp.immutable import Timestamp
 
 from ..grains import Grain, CodedAudioGrain
 from .grain_wrapper import read_fully
@@ -91,13 +92,11 @@ class ADTSAACGrainWrapper(object):
         assert (media_rate is not None)
         assert (coded_frame_size is not None)
 
-        norm_origin_ts = self.template_grain.origin_timestamp.normalise(media_rate.numerator, media_rate.denominator)
-        grain_timerange = TimeRange.from_start(norm_origin_ts)
+        # The frames need not start on a multiple of the frame rate
+        origin_count = self.template_grain.origin_timestamp.to_count(media_rate)
 
-        frame_rate = media_rate / coded_frame_size
-
-        for timestamp in grain_timerange.at_rate(frame_rate):
-            norm_origin_ts = timestamp.normalise(media_rate.numerator, media_rate.denominator)
+        for sample_count in itertools.count(origin_count, coded_frame_size):
+            norm_origin_ts = Timestamp.from_count(sample_count, media_rate)
 
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = norm_origin_ts
-- 
2.43.0


From bcf5dce5aec986a4cb96d3e8eb14314a8349c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 071/106] fix: wrapped audio starts at the origin timestamp

---
 mediagrains/utils/grain_wrapper.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 14c3ff3..2da221a 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -19,10 +19,11 @@ This can be used for tasks like piping the output of ffmpeg (or similar) into a
 """
 import typing
 import copy
+import itertools
 
-from mediatimestamp.immutable import TimeRange
+from mediatimestamp.immutable import TimeRange, Timestamp
 
-from mediagrains.grains import Grain
+from mediagrains.grains import AudioGrain, Grain
 
 
 def read_fully(input_data: typing.IO[bytes], size: typing.Optional[int]) -> bytes:
@@ -63,14 +64,25 @@ class GrainWrapper():
 
         self.frame_size = template_grain.expected_length
 
+    def _timestamps(self) -> typing.Iterator[Timestamp]:
+        """Generator that yields the origin timestamps of the Grains"""
+        media_rate = self.template_grain.media_rate
+        if isinstance(self.template_grain, AudioGrain) and self.template_grain.samples and media_rate:
+            # The grains need not start on a multiple of the grain rate
+            origin_count = self.template_grain.origin_timestamp.to_count(media_rate)
+
+            for sample_count in itertools.count(origin_count, self.template_grain.samples):
+                yield Timestamp.from_count(sample_count, media_rate)
+        else:
+            grain_timerange = TimeRange.from_start(self.template_grain.origin_timestamp)
+            yield from grain_timerange.at_rate(self.template_grain.rate)
+
     def grains(self) -> typing.Iterator[Grain]:
         """Generator that yields Grains read from the input given
 
         :yields: Grain objects read from the raw input supplied
         """
-        grain_timerange = TimeRange.from_start(self.template_grain.origin_timestamp)
-
-        for timestamp in grain_timerange.at_rate(self.template_grain.rate):
+        for timestamp in self._timestamps():
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = timestamp
             new_grain.sync_timestamp = timestamp
-- 
2.43.0


From a83b00ad4c3f7077e3e8f25e84f1b0731934140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 072/106] fix: yield what there is of an H.264 frame cut short
 by the end of the input

---
 mediagrains/utils/h264_grain_wrapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index f86cbba..75831d8 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -20,6 +20,7 @@ import typing
 import copy
 from math import ceil
 
+from bitstring import ReadError
 from mediatimestamp.immutable import TimeRange
 
 from ..grains import Grain, CodedVideoGrain
@@ -102,7 +103,12 @@ class H264GrainWrapper(object):
             frame_data = self.input_data_buffer
             unit_offsets = list(h264_parser.get_nalu_byte_offsets(frame_data))
             if len(unit_offsets) > 0:
-                frame_info = h264_parser.parse_frame_info(frame_data, nalu_byte_offsets=unit_offsets)
+                frame_info = None
+                try:
+                    frame_info = h264_parser.parse_frame_info(frame_data, nalu_byte_offsets=unit_offsets)
+                except ReadError:
+                    # The input ended within the frame
+                    pass
                 yield (frame_data, unit_offsets, frame_info)
 
     def grains(self) -> typing.Iterator[CodedVideoGrain]:
-- 
2.43.0


From fe818d629725722dd1c1d4d4ba73943d5ee4b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 073/106] fix: key frame flag of a last H.264 frame with data
 partitioning

---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index a1107d7..77768aa 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -309,7 +309,7 @@ class H264Parser(object):
 
                 primary_slice_headers.append(slice_header)
 
-            elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
+            elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT and not primary_slice_headers:
                 # No primary slices
                 break
 
-- 
2.43.0


From b10244c6f6f9a0df2aebdb3ae3fbb5673b4f2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 074/106] fix: extract essence from files with empty grains

---
 mediagrains/tools/extract_from_gsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index d54b2eb..dc7165e 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -45,7 +45,8 @@ def extract_gsf_essence():
         for grain, local_id in decoder.grains(local_ids=args.only_id):
             print("Got grain with local_id {} at {}".format(local_id, grain.origin_timestamp.to_sec_nsec()),
                   file=sys.stderr)
-            output_data.write(grain.data)
+            if grain.data is not None:  # Empty grains have none
+                output_data.write(grain.data)
 
 
 def gsf_probe():
-- 
2.43.0


From 2c5d08155b8ec0c4037719268ee53913517d740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 075/106] fix: gsf_probe reports the length of coded frames

---
 mediagrains/tools/extract_from_gsf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index dc7165e..980e7f8 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -73,6 +73,10 @@ def gsf_probe():
         for grain, local_id in decoder.grains(load_lazily=True):
             this_segment = file_data["segments"][local_id]
 
+            if grain.grain_type == "coded_video":
+                # The length is not part of the header, so the decoder leaves it at its default
+                grain.meta["grain"]["cog_coded_frame"]["length"] = grain.length
+
             if args.all_grains:
                 try:
                     this_segment["grain_data"].append(grain.meta["grain"])
-- 
2.43.0


From 2d74b389f14a8d39f12d0897b063ae7173f3b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 076/106] fix: gsf_probe of concatenated files with further
 segments

---
 mediagrains/tools/extract_from_gsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index 980e7f8..c246991 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -71,7 +71,8 @@ def gsf_probe():
         file_data["created"] = str(file_data["created"])  # Work around mediajson's inability to serialize datetimes
 
         for grain, local_id in decoder.grains(load_lazily=True):
-            this_segment = file_data["segments"][local_id]
+            # A concatenated file may have segments the first file's headers don't mention
+            this_segment = file_data["segments"].setdefault(local_id, {"local_id": local_id})
 
             if grain.grain_type == "coded_video":
                 # The length is not part of the header, so the decoder leaves it at its default
-- 
2.43.0


From 71a69f3ea489ffccc73b0ba1b32b57e6c0ecbbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 077/106] fix: time range of audio grains without a sample rate

---
 mediagrains/grains/AudioGrain.py      | 2 ++
 mediagrains/grains/CodedAudioGrain.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index 65d7689..c54ec3b 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -174,6 +174,8 @@ sample_rate
         self.meta['grain']['cog_audio']['format'] = int(self.meta['grain']['cog_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if not self.sample_rate:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index 2ef8d9d..460c5a5 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -179,6 +179,8 @@ remainder
         self.meta['grain']['cog_coded_audio']['format'] = int(self.meta['grain']['cog_coded_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if not self.sample_rate:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
-- 
2.43.0


From 18a6bd8120e388fddc47ba0f4ebe1e37eb9a6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 078/106] fix: rate and duration given as any rational in grain
 metadata

---
 mediagrains/grains/Grain.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 9434990..6ffd021 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -28,7 +28,8 @@ from typing import (
     Iterable,
     Awaitable,
     Callable,
-    Generator)
+    Generator,
+    get_args)
 
 from ..typing import (
     RationalTypes,
@@ -346,14 +347,10 @@ media_rate
             if not isinstance(self.meta["grain"]["creation_timestamp"], str):
                 cast(EmptyGrainMetadataDict, self.meta)['grain']['creation_timestamp'] = _stringify_timestamp_input(
                     self.meta['grain']['creation_timestamp'])
-            if isinstance(self.meta['grain']['rate'], Fraction):
-                cast(EmptyGrainMetadataDict, self.meta)['grain']['rate'] = {
-                    'numerator': self.meta['grain']['rate'].numerator,
-                    'denominator': self.meta['grain']['rate'].denominator}
-            if isinstance(self.meta['grain']['duration'], Fraction):
-                cast(EmptyGrainMetadataDict, self.meta)['grain']['duration'] = {
-                    'numerator': self.meta['grain']['duration'].numerator,
-                    'denominator': self.meta['grain']['duration'].denominator}
+            if isinstance(self.meta['grain']['rate'], get_args(RationalTypes)):
+                self.rate = cast(RationalTypes, self.meta['grain']['rate'])
+            if isinstance(self.meta['grain']['duration'], get_args(RationalTypes)):
+                self.duration = cast(RationalTypes, self.meta['grain']['duration'])
         else:
             raise ValueError("Metadata dict passed to Grain was none!!")
 
-- 
2.43.0


From c864f28927e47cda4004de0fa0890ef53bdcc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 079/106] fix: presentation times of coded video without a rate

---
 mediagrains/grains/CodedVideoGrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 83af7e8..e385dc5 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -413,20 +413,20 @@ unit_offsets
 
     @property
     def presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.origin_timestamp
 
     def final_presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.final_origin_timestamp()
 
     def presentation_origin_timerange(self) -> TimeRange:
         origin_tr = self.origin_timerange()
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             if origin_tr.start is not None:
                 start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.rate)
             else:
-- 
2.43.0


From bb595a1d982ede6f6a7b9661ac161fd9e733788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 080/106] fix: the grain strategies ignored the format they
 were given

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 55f7648..31e6f01 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -252,7 +252,7 @@ def audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate)
@@ -317,7 +317,7 @@ def coded_audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate,
@@ -377,7 +377,7 @@ def video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            width=width,
                            height=height,
                            cog_frame_layout=cog_frame_layout)
@@ -449,7 +449,7 @@ def coded_video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            origin_width=origin_width,
                            origin_height=origin_height,
                            coded_width=coded_width,
-- 
2.43.0


From cf64825edee201c2c23d6761681d6e094940eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 081/106] fix: coded_audio_grains ignored the creation
 timestamp it was given

---
 mediagrains/hypothesis/strategies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 31e6f01..f6c26f2 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -313,6 +313,7 @@ def coded_audio_grains(src_id=None,
     return _grain_strategy(CodedAudioGrain, "coded_audio",
                            src_id=src_id,
                            flow_id=flow_id,
+                           creation_timestamp=creation_timestamp,
                            origin_timestamp=origin_timestamp,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
-- 
2.43.0


From de00bd84e97148808aa603c732adc15c9e393671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 082/106] fix: unit offsets were generated in any order

---
 mediagrains/hypothesis/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index f6c26f2..63d438e 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -131,7 +131,7 @@ def strategy_for_grain_attribute(attr, grain_type=None):
               'is_key_frame': booleans(),
               'temporal_offset': integers(min_value=0, max_value=16),
               'unit_offsets': just(None) | lists(
-                integers(min_value=0, max_value=256), min_size=0, max_size=16).filter(sorted)}
+                integers(min_value=0, max_value=256), min_size=0, max_size=16).map(sorted)}
     if attr not in strats:
         raise ValueError("No strategy known for grain attribute: {!r}".format(attr))
     if isinstance(strats[attr], Exception):
-- 
2.43.0


From 6e4c6e468c5d4ffd1a5d8d700c7848b16b27d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 083/106] fix: coded grain strategies generated the unknown
 format

---
 mediagrains/hypothesis/strategies.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 63d438e..e4550c3 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -93,11 +93,13 @@ def strategy_for_grain_attribute(attr, grain_type=None):
             # Uncompressed audio formats
             return sampled_from(CogAudioFormat).filter(lambda x: x < 0x200)
         elif grain_type == "coded_audio":
-            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x != CogAudioFormat.INVALID)
+            return sampled_from(CogAudioFormat).filter(
+                lambda x: (x & 0x200) != 0 and x not in (CogAudioFormat.UNKNOWN, CogAudioFormat.INVALID))
         elif grain_type == "video":
             return sampled_from(CogFrameFormat).filter(lambda x: ((x >> 9) & 0x1) == 0)
         elif grain_type == "coded_video":
-            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x != CogFrameFormat.INVALID)
+            return sampled_from(CogFrameFormat).filter(
+                lambda x: (x & 0x200) != 0 and x not in (CogFrameFormat.UNKNOWN, CogFrameFormat.INVALID))
         else:
             return ValueError("Cannot generate formats for grain type: {!r}".format(grain_type))
 
-- 
2.43.0


From b4c7445c530911266b6580558b7336755d5fbcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 084/106] fix: event_grains could not leave a timestamp unset

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index e4550c3..7157ea6 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -592,14 +592,14 @@ def event_grains(src_id=None,
     def event_grain(
      src_id,
      flow_id,
-     origin_timestamp,
-     sync_timestamp,
      rate,
      duration,
-     creation_timestamp,
      event_type,
      topic,
-     event_data):
+     event_data,
+     origin_timestamp=None,
+     sync_timestamp=None,
+     creation_timestamp=None):
         grain = EventGrain(
             src_id=src_id,
             flow_id=flow_id,
-- 
2.43.0


From 280d07ed171488b4711a8527a7f96bcea9d00835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 085/106] fix: aspect ratios given as numbers in metadata could
 not be read

---
 mediagrains/grains/CodedVideoGrain.py | 8 +++++++-
 mediagrains/grains/VideoGrain.py      | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index e385dc5..7b91fae 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -8,7 +8,8 @@ from typing import (
     overload,
     cast,
     Sized,
-    Iterable)
+    Iterable,
+    get_args)
 from uuid import UUID
 from mediatimestamp.immutable import Timestamp, TimeRange, SupportsMediaTimestamp, mediatimestamp
 from ..typing import (
@@ -208,6 +209,11 @@ unit_offsets
             self.meta['grain']['cog_coded_frame']['length'] = 0
         self.meta['grain']['cog_coded_frame']['format'] = int(self.meta['grain']['cog_coded_frame']['format'])
         self.meta['grain']['cog_coded_frame']['layout'] = int(self.meta['grain']['cog_coded_frame']['layout'])
+        if isinstance(self.meta['grain']['cog_coded_frame'].get('source_aspect_ratio'), get_args(RationalTypes)):
+            self.source_aspect_ratio = cast(RationalTypes,
+                                            self.meta['grain']['cog_coded_frame']['source_aspect_ratio'])
+        if isinstance(self.meta['grain']['cog_coded_frame'].get('pixel_aspect_ratio'), get_args(RationalTypes)):
+            self.pixel_aspect_ratio = cast(RationalTypes, self.meta['grain']['cog_coded_frame']['pixel_aspect_ratio'])
 
     @property
     def format(self) -> CogFrameFormat:
diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 8b9cdcb..df911dd 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -8,7 +8,8 @@ from typing import (
     overload,
     cast,
     Iterator,
-    Iterable)
+    Iterable,
+    get_args)
 from typing_extensions import Literal
 from uuid import UUID
 from deprecated import deprecated
@@ -450,6 +451,10 @@ length
             }
         self.meta['grain']['cog_frame']['format'] = int(self.meta['grain']['cog_frame']['format'])
         self.meta['grain']['cog_frame']['layout'] = int(self.meta['grain']['cog_frame']['layout'])
+        if isinstance(self.meta['grain']['cog_frame'].get('source_aspect_ratio'), get_args(RationalTypes)):
+            self.source_aspect_ratio = cast(RationalTypes, self.meta['grain']['cog_frame']['source_aspect_ratio'])
+        if isinstance(self.meta['grain']['cog_frame'].get('pixel_aspect_ratio'), get_args(RationalTypes)):
+            self.pixel_aspect_ratio = cast(RationalTypes, self.meta['grain']['cog_frame']['pixel_aspect_ratio'])
         self.components = VideoGrain.COMPONENT_LIST(self)
 
     @property
-- 
2.43.0


From 2b544d6239ac3f704a95c660a09517c06bf9f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 086/106] fix: strings too long for a GSF file were cut inside
 a character

---
 mediagrains/gsf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 4f870a6..3ed17fd 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1653,6 +1653,11 @@ def _encode_sint(val: int, size: int) -> bytes:
     return _encode_uint(val, size)
 
 
+def _encode_string(val: str, limit: int) -> bytes:
+    """Encode as much of the string as fits in the limit without cutting a character short"""
+    return val.encode('utf-8')[:limit].decode('utf-8', errors='ignore').encode('utf-8')
+
+
 def _encode_bool(val: bool) -> bytes:
     return _encode_uint(1 if val else 0, 1)
 
@@ -2276,11 +2281,11 @@ class GSFEncoderTag(object):
 
     @property
     def encoded_key(self) -> bytes:
-        return self.key.encode("utf-8")[:65535]
+        return _encode_string(self.key, 65535)
 
     @property
     def encoded_value(self) -> bytes:
-        return self.value.encode("utf-8")[:65535]
+        return _encode_string(self.value, 65535)
 
     @property
     def tag_block_size(self) -> int:
@@ -2383,7 +2388,7 @@ class GSFEncoderSegment(object):
 
                 _encode_uuid(self._gsf_flow.src_id) +
                 _encode_uuid(self._gsf_flow.flow_id) +
-                (self._gsf_flow.format.encode("utf-8") + (b"\x00" * 64))[:64] +
+                _encode_string(self._gsf_flow.format, 64).ljust(64, b"\x00") +
                 _encode_uint(len(self._gsf_flow.data), 4) +
                 self._gsf_flow.data
             )
@@ -2446,7 +2451,7 @@ class GSFEncoderSegment(object):
                 _encode_uint(len(grain.timelabels), 2))
 
             for label in grain.timelabels:
-                tag = (label['tag'].encode('utf-8') + (b"\x00" * 16))[:16]
+                tag = _encode_string(label['tag'], 16).ljust(16, b"\x00")
                 data += (
                     tag +
                     _encode_uint(label['timelabel']['frames_since_midnight'], 4) +
-- 
2.43.0


From a93a3cfcf4169b23190883d72985966eac76dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 087/106] fix: array grains could not be compared with ==

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  5 ++++-
 mediagrains/numpy/numpy_grains/VideoGrain.py |  5 ++++-
 mediagrains/numpy/numpy_grains/_data.py      | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 76bfb7b..3c06e54 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -9,7 +9,7 @@ from fractions import Fraction
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
-from ._data import _array_from_data
+from ._data import _array_from_data, _equal_grains
 
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
@@ -195,6 +195,9 @@ class AudioGrain (bytesgrain.AudioGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        return _equal_grains(self, other)
+
     def __copy__(self) -> "AudioGrain":
         return cast(AudioGrain, self._share_absent_data(AudioGrain(meta=copy(self.meta), data=self.data)))
 
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index ec2c591..b5841f4 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -11,7 +11,7 @@ import uuid
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
 
-from ._data import _array_from_data
+from ._data import _array_from_data, _equal_grains
 
 from typing import Callable, Dict, Tuple, Optional, Awaitable, cast, Generator, Any
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
@@ -312,6 +312,9 @@ class VideoGrain (bytesgrain.VideoGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        return _equal_grains(self, other)
+
     def __copy__(self) -> "VideoGrain":
         return cast(VideoGrain, self._share_absent_data(VideoGrain(meta=copy(self.meta), data=self.data)))
 
diff --git a/mediagrains/numpy/numpy_grains/_data.py b/mediagrains/numpy/numpy_grains/_data.py
index 9c6bb62..f4a33b5 100644
--- a/mediagrains/numpy/numpy_grains/_data.py
+++ b/mediagrains/numpy/numpy_grains/_data.py
@@ -2,6 +2,8 @@ from typing import Any, Optional
 
 import numpy as np
 
+from mediagrains.grains import Grain
+
 
 def _array_from_data(data: Any, dtype: np.dtype) -> Optional[np.ndarray]:
     """This method returns a numpy array of a grain's data element, sharing its memory where that is possible.
@@ -16,3 +18,17 @@ def _array_from_data(data: Any, dtype: np.dtype) -> Optional[np.ndarray]:
     except TypeError:
         data = bytes(data)
     return np.frombuffer(data, dtype=dtype)
+
+
+def _octets(data: Any) -> Any:
+    return data.tobytes() if isinstance(data, np.ndarray) else data
+
+
+def _equal_grains(grain: Grain, other: object) -> bool:
+    """This method compares a grain that has its data in an array to another grain, or to a tuple of metadata and data.
+
+    Arrays have no single truth value when compared, so that their octets are compared instead.
+    """
+    if not isinstance(other, (tuple, Grain)) or len(other) != 2:
+        return False
+    return bool(grain.meta == other[0] and _octets(grain.data) == _octets(other[1]))
-- 
2.43.0


From 1c825c44b4340d59d81f9a1a72c38951f9ca4868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 088/106] fix: comparison results could not be copied

---
 mediagrains/comparison/_internal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 299a4ae..63f894f 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -206,6 +206,9 @@ class ComparisonResult(Generic[CR]):
             return results[0]
 
     def __getattr__(self, key: str) -> CR:
+        if key.startswith('_'):
+            # Looked for by copy and others before there are any sub-comparisons, no attribute of a grain is private
+            raise AttributeError(key)
         try:
             return self.subcomparison_for_attribute(key)
         except KeyError:
-- 
2.43.0


From 33d9e4953584e88458c6dfe820fd0ec40213d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 089/106] fix: comparison reports named values which are equal
 as the first different ones

---
 mediagrains/comparison/_internal.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 63f894f..c46c995 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -275,6 +275,11 @@ class DataEqualityComparisonResult(ComparisonResult):
         # The decoded values cannot settle equality: not a number differs from itself, and an incomplete word at the
         # end of the data is not decoded at all
         self._data_equal = (a == b)
+        self._first_difference = 0
+        if a is not None and b is not None and not self._data_equal:
+            # The words at which the bytes first differ, or at which the shorter data ends
+            first_byte = next((i for (i, (x, y)) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
+            self._first_difference = first_byte//(words_per_sample*struct.calcsize(alignment + word_code))
 
         def _signer(n):
             OFL = 1 << (words_per_sample*8)
@@ -341,12 +346,11 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
             self.d = SequenceMatcher(None, a, b)
-            first_op = next((x for x in self.d.get_opcodes() if x[0] != 'equal'), None)
-            if first_op is None:
+            i = self._first_difference
+            if i >= max(len(a), len(b)) or all(x[0] == 'equal' for x in self.d.get_opcodes()):
                 return (False, "Binary data {} and {} have equal values but differ in their bytes".format(
                     self._identifier.format('a'), self._identifier.format('b')), [])
 
-            i = first_op[1]
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
                        "first different values are {}[{}] == {} and {}[{}] == {}").format(self._identifier.format('a'),
-- 
2.43.0


From 950777084f8a567aeacb8e7f74e2e082993c5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 090/106] fix: comparison reports showed the wrong values of
 the second grain's data

---
 mediagrains/comparison/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index c46c995..824f46e 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -400,7 +400,7 @@ class DataEqualityComparisonResult(ComparisonResult):
             prefix += "  "
             opstrings = [prefix + "{:7}   a[{}:{}] --> b[{}:{}] {:>8} --> {}".format(
                             tag, i1, i2, j1, j2, '(' + ', '.join(str(x) for x in self.a[i1:i2]) + ')',  # type: ignore
-                            '(' + ', '.join(str(x) for x in self.b[i1:i2]) + ')')  # type: ignore
+                            '(' + ', '.join(str(x) for x in self.b[j1:j2]) + ')')  # type: ignore
                          for (tag, i1, i2, j1, j2) in self.d.get_opcodes()[:5]]
             r += '\n' + opstrings[0]
             if len(opstrings) > 1:
-- 
2.43.0


From 021606d5d2edbb23fafad8f7f051079a9a2e2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 091/106] fix: comparing event data with braces in its keys
 raised

---
 mediagrains/comparison/_internal.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 824f46e..ba592d4 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -624,15 +624,19 @@ class MappingContainerComparisonResult(ComparisonResult):
     def compare(self, a: dict[Any, Any], b: dict[Any, Any]) -> tuple[bool, str, list[ComparisonResult]]:
         children: list[ComparisonResult] = []
 
+        def path(key):
+            # Braces in a key are not placeholders for the name of the top level object
+            return self.identifier + "[{!r}]".format(key).replace('{', '{{').replace('}', '}}')
+
         for key in [k for k in a.keys() if k in b.keys()]:
             children.append(self._comparison_class(
-                self.identifier + "[{!r}]".format(key), a[key], b[key], options=self._options, key=key))
+                path(key), a[key], b[key], options=self._options, key=key))
         for key in [k for k in a.keys() if k not in b.keys()]:
             children.append(AOnlyComparisonResult(
-                self.identifier + "[{!r}]".format(key), a[key], options=self._options, key=key))
+                path(key), a[key], options=self._options, key=key))
         for key in [k for k in b.keys() if k not in a.keys()]:
             children.append(BOnlyComparisonResult(
-                self.identifier + "[{!r}]".format(key), b[key], options=self._options, key=key))
+                path(key), b[key], options=self._options, key=key))
 
         if all(c or c.excluded() for c in children):
             return (True, "Mappings match", children)
-- 
2.43.0


From dcd0da0b6d90ab7bcbaa7838ebdf290ba9a78698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 092/106] fix: comparing sequences named the entry after the
 first which differs

---
 mediagrains/comparison/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index ba592d4..ee5f947 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -602,7 +602,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         else:
             return (
                 False,
-                "Iterators differ first at entry {}".format(self.compared_item_count),
+                "Iterators differ first at entry {}".format(comparison_result.key),
                 children
             )
 
-- 
2.43.0


From 2588c7d8bf33ea2a7627e4b42de1846fb3fb3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 093/106] fix: generators did not take counts of grains as
 keys, as they do in ranges

---
 mediagrains/patterngenerators/abc.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index bbe260d..ffdc046 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -83,9 +83,9 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
         elif isinstance(key, (TimeRange, CountRange)):
             rng = TimeValueRange(key)
         elif isinstance(key, TimeValue):
-            val = key
+            val = self._time_value(key)
         elif isinstance(key, (Timestamp, TimeOffset, int, SupportsMediaTimeOffset, SupportsMediaTimestamp)):
-            val = TimeValue(key)
+            val = self._time_value(key)
         elif isinstance(key, SupportsMediaTimeRange):
             rng = TimeValueRange(key)
         else:
@@ -117,7 +117,10 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
         ...
 
     def __contains__(self, key: TimeValueConstructTypes) -> bool:
-        return (self.get(TimeValue(key)) is not None)
+        return (self.get(self._time_value(key)) is not None)
+
+    def _time_value(self, key: TimeValueConstructTypes) -> TimeValue:
+        return TimeValue(key)
 
 
 class FixedRatePatternGenerator (Generic[G], PatternGenerator[G], metaclass=ABCMeta):
@@ -129,6 +132,13 @@ class FixedRatePatternGenerator (Generic[G], PatternGenerator[G], metaclass=ABCM
     def rate(self) -> Fraction:
         return self._rate
 
+    def _time_value(self, key: TimeValueConstructTypes) -> TimeValue:
+        val = TimeValue(key)
+        if val.rate is None and isinstance(val.value, int):
+            # A count of grains, as it is in a range
+            val = TimeValue(val, rate=self._rate)
+        return val
+
     def get_range(self, rng: TimeValueRange, skip: int = 1) -> Iterator[G]:
         if rng.rate is None:
             rng = TimeValueRange(rng, rate=self._rate)
-- 
2.43.0


From 9405449506209b70efd8c187d09e6ae5f306c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 094/106] fix: write all of the data to outputs which take it
 in pieces

An unbuffered file (GSFEncoder takes any RawIOBase) may write less than it is given, and says so by the count it
returns. The encoders did not look at it, so the rest of a grain or of the header was lost without an error.
---
 mediagrains/gsf.py | 50 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 3ed17fd..953fc93 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -273,6 +273,22 @@ def _read_exactly(file_data: IO[bytes], length: int) -> bytes:
     return data
 
 
+async def _async_write_fully(file_data: OpenAsyncBinaryIO, data: bytes) -> None:
+    """Write all of `data`, however many writes that takes: unbuffered files may write less than they are given"""
+    written = await file_data.write(data)
+    while isinstance(written, int) and written < len(data):
+        data = data[written:]
+        written = await file_data.write(data)
+
+
+def _write_fully(file_data: IO[bytes], data: bytes) -> None:
+    """Write all of `data`, however many writes that takes: unbuffered files may write less than they are given"""
+    written = file_data.write(data)
+    while isinstance(written, int) and written < len(data):
+        data = data[written:]
+        written = file_data.write(data)
+
+
 def _check_in_parent(block: Union["AsyncGSFBlock", "SyncGSFBlock"], size: int) -> None:
     """Check that a block of `size` bytes fits in the block it is a child of, if that is known
 
@@ -1865,7 +1881,7 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
 
         if self._active_dump:
             for grain in grains:
-                self.file.write(segment.encode_grain(grain))
+                _write_fully(self.file, segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
@@ -1885,21 +1901,23 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self.file.seekable():
             self._set_segment_offsets(segment_offsets, self.file.tell() + len(file_header))
 
-        self.file.write(file_header +
-                        head_block +
-                        self._encode_all_grains())
+        _write_fully(self.file,
+                     file_header +
+                     head_block +
+                     self._encode_all_grains())
 
     def _end_dump(self):
         for seg in self._segments.values():
             if self.file.seekable() and seg._count_pos != -1:
                 curpos = self.file.tell()
                 self.file.seek(seg._count_pos)
-                self.file.write(_encode_sint(seg.get_write_count(), 8))
+                _write_fully(self.file, _encode_sint(seg.get_write_count(), 8))
                 self.file.seek(curpos)
 
         if self._active_dump:
-            self.file.write(b"grai" +
-                            _encode_uint(0, 4))
+            _write_fully(self.file,
+                         b"grai" +
+                         _encode_uint(0, 4))
             self._active_dump = False
 
         for seg in self._segments.values():
@@ -1955,7 +1973,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         if self._open_file is not None and self._active_dump:
             await self._write_pending_grains()
             for grain in grains:
-                await self._open_file.write(segment.encode_grain(grain))
+                await _async_write_fully(self._open_file, segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
@@ -1963,7 +1981,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         """Write the grains which were added since the header was written by way of a call that cannot write them"""
         data = self._encode_all_grains()
         if data:
-            await self._open_file.write(data)
+            await _async_write_fully(self._open_file, data)
 
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
@@ -1988,9 +2006,10 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self._open_file.seekable():
             self._set_segment_offsets(segment_offsets, self._open_file.tell() + len(file_header))
 
-        await self._open_file.write(file_header +
-                                    head_block +
-                                    self._encode_all_grains())
+        await _async_write_fully(self._open_file,
+                                 file_header +
+                                 head_block +
+                                 self._encode_all_grains())
 
     async def _end_dump(self):
         if self._active_dump:
@@ -2001,13 +2020,14 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                 curpos = self._open_file.tell()
                 self._open_file.seek(seg._count_pos)
 
-                await self._open_file.write(_encode_sint(seg.get_write_count(), 8))
+                await _async_write_fully(self._open_file, _encode_sint(seg.get_write_count(), 8))
 
                 self._open_file.seek(curpos)
 
         if self._active_dump:
-            await self._open_file.write(b"grai" +
-                                        _encode_uint(0, 4))
+            await _async_write_fully(self._open_file,
+                                     b"grai" +
+                                     _encode_uint(0, 4))
 
             self._active_dump = False
 
-- 
2.43.0


From 7ed15af56afe7c420d353900a1c83d1675e86ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 095/106] fix: grains which could not be written were counted

If writing a grain failed, and the program went on, the count in the header of the file was one too many for each.
---
 mediagrains/gsf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 953fc93..9a16f49 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1882,6 +1882,7 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         if self._active_dump:
             for grain in grains:
                 _write_fully(self.file, segment.encode_grain(grain))
+                segment._count_written(1)
         else:
             segment.add_grains(grains)
 
@@ -1974,6 +1975,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
             await self._write_pending_grains()
             for grain in grains:
                 await _async_write_fully(self._open_file, segment.encode_grain(grain))
+                segment._count_written(1)
         else:
             segment.add_grains(grains)
 
@@ -2385,6 +2387,10 @@ class GSFEncoderSegment(object):
         self._count_pos = -1
         self._active_dump = True
 
+    def _count_written(self, count: int):
+        """A grain which could not be written does not count"""
+        self._write_count += count
+
     def _end_dump(self):
         self._active_dump = False
 
@@ -2426,6 +2432,7 @@ class GSFEncoderSegment(object):
         for grain in self._grains:
             data += self.encode_grain(grain)
 
+        self._count_written(len(self._grains))
         self._grains = []
         return data
 
@@ -2497,8 +2504,6 @@ class GSFEncoderSegment(object):
             _encode_uint(8 + len(grain_data), 4) +
             grain_data)
 
-        self._write_count += 1
-
         return data
 
     def _gbhd_size_for_grain(self, grain: Grain) -> int:
-- 
2.43.0


From 9b194f73a7527a3f382c2a4dc9a41f90d8da1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 096/106] fix: cancelled calls on asynchronous files went on
 behind the caller's back

---
 mediagrains/utils/asyncbinaryio.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 89624bc..f0733eb 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -105,7 +105,17 @@ T = TypeVar("T")
 def wrap_in_executor(f: Callable[..., T]) -> Callable[..., Coroutine[None, None, T]]:
     @wraps(f)
     async def __inner(*args, **kwargs):
-        return await asyncio.get_event_loop().run_in_executor(None, lambda: f(*args, **kwargs))
+        fut = asyncio.get_event_loop().run_in_executor(None, lambda: f(*args, **kwargs))
+        try:
+            return await asyncio.shield(fut)
+        except asyncio.CancelledError:
+            # A call cannot be stopped once it has begun. Nothing else may use the file until it is over.
+            while not fut.done():
+                try:
+                    await asyncio.wait((fut,))
+                except asyncio.CancelledError:
+                    pass
+            raise
     return __inner
 
 
-- 
2.43.0


From 01eeb09011a1e949204821dee811851861c259e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 097/106] fix: failures to seek to the end of a block were
 ignored

---
 mediagrains/gsf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 9a16f49..17043d2 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -394,7 +394,9 @@ class AsyncGSFBlock():
                 actual_size = 0
             self.file_data.seek(self.block_start + actual_size, SEEK_SET)
         except Exception:
-            pass
+            # Don't hide the reason for leaving the block, if there is one
+            if not args or args[0] is None:
+                raise
 
     def has_child_block(self, strict_blocks=True):
         """Checks if there is space for another child block in this block
@@ -610,7 +612,9 @@ class SyncGSFBlock():
                 actual_size = 0
             self.file_data.seek(self.block_start + actual_size - self.file_data_start, SEEK_SET)
         except Exception:
-            pass
+            # Don't hide the reason for leaving the block, if there is one
+            if not args or args[0] is None:
+                raise
 
     def has_child_block(self, strict_blocks=True):
         """Checks if there is space for another child block in this block
-- 
2.43.0


From c617fcb261df4836691f6a24ed7f827cdbee457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 098/106] fix: grains whose addition was cancelled were written
 and not counted

---
 mediagrains/gsf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 17043d2..c2efae7 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -32,7 +32,7 @@ from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR, SEEK_END
 import warnings
 
-from asyncio import Lock
+from asyncio import CancelledError, Lock
 from inspect import isawaitable
 
 from typing import (
@@ -1978,7 +1978,13 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         if self._open_file is not None and self._active_dump:
             await self._write_pending_grains()
             for grain in grains:
-                await _async_write_fully(self._open_file, segment.encode_grain(grain))
+                data = segment.encode_grain(grain)
+                try:
+                    await _async_write_fully(self._open_file, data)
+                except CancelledError:
+                    # Which comes too late to stop the write
+                    segment._count_written(1)
+                    raise
                 segment._count_written(1)
         else:
             segment.add_grains(grains)
-- 
2.43.0


From d0b8648a95adf840aae0b1249507ac9c88137ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 099/106] fix: generators did not take keys which have a time
 range

---
 mediagrains/patterngenerators/abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index ffdc046..776bee4 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -30,7 +30,8 @@ from mediatimestamp import (
     SupportsMediaTimestamp,
     TimeRange,
     CountRange,
-    SupportsMediaTimeRange)
+    SupportsMediaTimeRange,
+    mediatimerange)
 
 from mediagrains.grains.Grain import Grain
 
@@ -87,7 +88,7 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
         elif isinstance(key, (Timestamp, TimeOffset, int, SupportsMediaTimeOffset, SupportsMediaTimestamp)):
             val = self._time_value(key)
         elif isinstance(key, SupportsMediaTimeRange):
-            rng = TimeValueRange(key)
+            rng = TimeValueRange(mediatimerange(key))
         else:
             raise ValueError(f"Invalid key: {key!r}")
 
-- 
2.43.0


From 0266508864ee2a95764784bbf09eea3f54e21f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:40 +0000
Subject: [PATCH 100/106] fix: moving bars over array grains of wide samples
 were written amiss

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 09c961d..a52b379 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -76,21 +76,24 @@ class MovingBarOverlay (VideoPatternGenerator):
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
 
+            # The data of a numpy grain is an array of samples, the offsets are in bytes
+            data = memoryview(cast(bytearray, grain.data)).cast("B")
+
             for y in range(0, self._bar_height):
                 line_no = ((fnum + y) % grain.components[0].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[0].offset + line_no*grain.components[0].stride:
                     grain.components[0].offset+line_no*grain.components[0].stride+grain.components[0].width*_bpp] = (
                         self._bar[0][y*grain.components[0].width * _bpp: (y+1)*grain.components[0].width * _bpp])
             for y in range(0, self._bar_height >> v_shift):
                 line_no = (((fnum >> v_shift) + y) % grain.components[1].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[1].offset + line_no*grain.components[1].stride:
                     grain.components[1].offset+line_no*grain.components[1].stride+grain.components[1].width*_bpp] = (
                         self._bar[1][y*grain.components[1].width * _bpp: (y+1)*grain.components[1].width * _bpp])
 
                 line_no = (((fnum >> v_shift) + y) % grain.components[2].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[2].offset + line_no*grain.components[2].stride:
                     grain.components[2].offset+line_no*grain.components[2].stride+grain.components[2].width*_bpp] = (
                         self._bar[2][y*grain.components[2].width * _bpp: (y+1)*grain.components[2].width * _bpp])
-- 
2.43.0


From d94dcc7f35111ca6483969b605c1314b5d8a106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:29 +0000
Subject: [PATCH 101/106] fix: lazily loaded bytes, and grains which hold them,
 could not be pickled

---
 mediagrains/utils/iobytes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index a16d5eb..eec6bea 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -137,7 +137,7 @@ class IOBytes (LazyLoader, Sequence):
     data to be read from the stream. The location of the stream pointer is restored to its previous location
     after this read so it should be transparent."""
 
-    _attributes = ['_istream', '_start', '_length', '__len__']
+    _attributes = ['_istream', '_start', '_length', '__len__', '__reduce_ex__']
 
     def __init__(self, istream, start, length):
         """
@@ -169,6 +169,10 @@ class IOBytes (LazyLoader, Sequence):
             self._object = object.__getattribute__(self, '_loader')()
         return self._object
 
+    def __reduce_ex__(self, protocol):
+        # Pickled as what it stands for, the stream cannot be
+        return bytes, (bytes(self),)
+
     def __len__(self):
         if self._object is None:
             return self._length
-- 
2.43.0


From 5a5db811951685d657d8f7cbe467c33c92ae6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 102/106] fix: views of unpickled array grains were not of
 their data

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 11 ++++++++++-
 mediagrains/numpy/numpy_grains/VideoGrain.py |  9 +++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 3c06e54..2faf9b3 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -1,4 +1,4 @@
-from typing import Optional, Awaitable, cast, Generator, Any, List
+from typing import Optional, Awaitable, cast, Generator, Any, Dict, List
 from ...typing import AudioGrainMetadataDict, GrainDataType, GrainDataParameterType
 from inspect import isawaitable
 
@@ -205,6 +205,15 @@ class AudioGrain (bytesgrain.AudioGrain):
         return cast(AudioGrain, self._share_absent_data(
             AudioGrain(meta=deepcopy(self.meta), data=self._data.copy() if self._data is not None else None), deepcopy))
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # Arrays which share memory would be unpickled apart from each other
+        return {**self.__dict__, "channel_data": []}
+
+    def __setstate__(self, state: Dict[str, Any]) -> None:
+        self.__dict__.update(state)
+        if self._data is not None:
+            self.data = self._data
+
     def __repr__(self) -> str:
         if self.data is None:
             return "{}({!r})".format(self._factory, self.meta)
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index b5841f4..f2bebb5 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -322,6 +322,15 @@ class VideoGrain (bytesgrain.VideoGrain):
         return cast(VideoGrain, self._share_absent_data(
             VideoGrain(meta=deepcopy(self.meta), data=self._data.copy() if self._data is not None else None), deepcopy))
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # Arrays which share memory would be unpickled apart from each other
+        return {**self.__dict__, "component_data": ComponentDataList([])}
+
+    def __setstate__(self, state: Dict[str, Any]) -> None:
+        self.__dict__.update(state)
+        if self._data is not None:
+            self.data = self._data
+
     def __repr__(self) -> str:
         if self.data is None:
             return "{}({!r})".format(self._factory, self.meta)
-- 
2.43.0


From 56f33dca0a4ab239ec4ca476a91bb1106b385e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:18 +0000
Subject: [PATCH 103/106] fix: decode errors could be neither copied nor
 pickled

---
 mediagrains/gsf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index c2efae7..8b60d92 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -30,6 +30,7 @@ from fractions import Fraction
 from frozendict import frozendict
 from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR, SEEK_END
+import copyreg
 import warnings
 
 from asyncio import CancelledError, Lock
@@ -215,6 +216,10 @@ class GSFDecodeError(GSFError):
         self.offset = i
         self.length = length
 
+    def __reduce__(self):
+        # The constructors cannot be called again with the message alone
+        return copyreg.__newobj__, (type(self), *self.args), self.__dict__  # type: ignore[attr-defined]
+
 
 class GSFDecodeBadFileTypeError(GSFDecodeError):
     """The file type was not GSF.
-- 
2.43.0


From 8f6277b81628b1b2ef06050c78b18cb2db9eed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 104/106] fix: grains waiting to be written were lost, and
 counted, when the write failed

---
 mediagrains/gsf.py | 58 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 8b60d92..468d447 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1843,11 +1843,27 @@ class OpenGSFEncoderBase(object):
 
         return (data, offsets)
 
-    def _encode_all_grains(self):
+    def _encode_all_grains(self) -> Tuple[bytes, List[Tuple["GSFEncoderSegment", List[Grain]]]]:
+        """Encode the grains which are waiting to be written
+
+        :returns: The encoded grains, and what to give to `_put_grains_back` if they can't be written
+        """
+        waiting = [(seg, seg._grains) for seg in self._segments.values()]
         data = b''
-        for seg in self._segments.values():
-            data += seg.encode_all_grains()
-        return data
+        try:
+            for seg in self._segments.values():
+                data += seg.encode_all_grains()
+        except Exception:
+            self._put_grains_back(waiting)
+            raise
+        return (data, waiting)
+
+    def _put_grains_back(self, waiting: List[Tuple["GSFEncoderSegment", List[Grain]]]) -> None:
+        """Grains which could not be written do not count, and are still waiting to be"""
+        for (seg, grains) in waiting:
+            if seg._grains is not grains:
+                seg._count_written(-len(grains))
+                seg._grains = grains + seg._grains
 
 
 class OpenGSFEncoder(OpenGSFEncoderBase):
@@ -1911,10 +1927,15 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self.file.seekable():
             self._set_segment_offsets(segment_offsets, self.file.tell() + len(file_header))
 
-        _write_fully(self.file,
-                     file_header +
-                     head_block +
-                     self._encode_all_grains())
+        (grains, waiting) = self._encode_all_grains()
+        try:
+            _write_fully(self.file,
+                         file_header +
+                         head_block +
+                         grains)
+        except Exception:
+            self._put_grains_back(waiting)
+            raise
 
     def _end_dump(self):
         for seg in self._segments.values():
@@ -1996,9 +2017,13 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
     async def _write_pending_grains(self) -> None:
         """Write the grains which were added since the header was written by way of a call that cannot write them"""
-        data = self._encode_all_grains()
+        (data, waiting) = self._encode_all_grains()
         if data:
-            await _async_write_fully(self._open_file, data)
+            try:
+                await _async_write_fully(self._open_file, data)
+            except Exception:
+                self._put_grains_back(waiting)
+                raise
 
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
@@ -2023,10 +2048,15 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self._open_file.seekable():
             self._set_segment_offsets(segment_offsets, self._open_file.tell() + len(file_header))
 
-        await _async_write_fully(self._open_file,
-                                 file_header +
-                                 head_block +
-                                 self._encode_all_grains())
+        (grains, waiting) = self._encode_all_grains()
+        try:
+            await _async_write_fully(self._open_file,
+                                     file_header +
+                                     head_block +
+                                     grains)
+        except Exception:
+            self._put_grains_back(waiting)
+            raise
 
     async def _end_dump(self):
         if self._active_dump:
-- 
2.43.0


From c684c4b84be992a0b6cfa32c7e86d7be3dc1513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 105/106] fix: ending a dump again after a failure wrote over
 the head of the file

---
 mediagrains/gsf.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 468d447..db0c4c3 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1940,10 +1940,11 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
     def _end_dump(self):
         for seg in self._segments.values():
             if self.file.seekable() and seg._count_pos != -1:
-                curpos = self.file.tell()
-                self.file.seek(seg._count_pos)
-                _write_fully(self.file, _encode_sint(seg.get_write_count(), 8))
-                self.file.seek(curpos)
+                try:
+                    self.file.seek(seg._count_pos)
+                    _write_fully(self.file, _encode_sint(seg.get_write_count(), 8))
+                finally:
+                    self.file.seek(0, SEEK_END)
 
         if self._active_dump:
             _write_fully(self.file,
@@ -2064,12 +2065,12 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
-                curpos = self._open_file.tell()
-                self._open_file.seek(seg._count_pos)
-
-                await _async_write_fully(self._open_file, _encode_sint(seg.get_write_count(), 8))
+                try:
+                    self._open_file.seek(seg._count_pos)
 
-                self._open_file.seek(curpos)
+                    await _async_write_fully(self._open_file, _encode_sint(seg.get_write_count(), 8))
+                finally:
+                    self._open_file.seek(0, SEEK_END)
 
         if self._active_dump:
             await _async_write_fully(self._open_file,
-- 
2.43.0


From ccd328cf6c9ad6c1835efff626078156d4fe382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:49 +0000
Subject: [PATCH 106/106] fix: dumping again after the end of a dump failed
 wrote no grains

---
 mediagrains/gsf.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index db0c4c3..c292163 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1749,6 +1749,7 @@ class OpenGSFEncoderBase(object):
         self._segments = segments
         self._next_local = next_local
         self._active_dump = False
+        self._dumped_at_once: List[Tuple["GSFEncoderSegment", List[Grain]]] = []
 
     @property
     def tags(self) -> Tuple["GSFEncoderTag", ...]:
@@ -1936,6 +1937,7 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         except Exception:
             self._put_grains_back(waiting)
             raise
+        self._dumped_at_once = waiting if all_at_once else []
 
     def _end_dump(self):
         for seg in self._segments.values():
@@ -1947,9 +1949,15 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
                     self.file.seek(0, SEEK_END)
 
         if self._active_dump:
-            _write_fully(self.file,
-                         b"grai" +
-                         _encode_uint(0, 4))
+            try:
+                _write_fully(self.file,
+                             b"grai" +
+                             _encode_uint(0, 4))
+            except Exception:
+                # Dumping again starts from the beginning
+                self._put_grains_back(self._dumped_at_once)
+                self._dumped_at_once = []
+                raise
             self._active_dump = False
 
         for seg in self._segments.values():
@@ -2058,6 +2066,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         except Exception:
             self._put_grains_back(waiting)
             raise
+        self._dumped_at_once = waiting if all_at_once else []
 
     async def _end_dump(self):
         if self._active_dump:
@@ -2073,9 +2082,15 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                     self._open_file.seek(0, SEEK_END)
 
         if self._active_dump:
-            await _async_write_fully(self._open_file,
-                                     b"grai" +
-                                     _encode_uint(0, 4))
+            try:
+                await _async_write_fully(self._open_file,
+                                         b"grai" +
+                                         _encode_uint(0, 4))
+            except Exception:
+                # Dumping again starts from the beginning
+                self._put_grains_back(self._dumped_at_once)
+                self._dumped_at_once = []
+                raise
 
             self._active_dump = False
 
-- 
2.43.0

