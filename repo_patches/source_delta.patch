From bc4a0dda5abd032df25fc44c73fb3f7c83ba5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 1/8] fix: VarObjectHeader.unpack_from reads the base header at
 the given offset

The base header was always read at offset 0 of the buffer, whatever offset was given.
---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From afdfa7f01c4849c88ab5c8b016a37a059e2feca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 2/8] fix: CanFdErrorFrame64 without extension data leaves its
 header alone

An extension offset of 0 means there is no extension data (as in CanFdMessage64), but
unpack read the bit rates from the object header and pack overwrote the header with them,
destroying the object signature.
---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From 6ef0d48778af689640534d3ca171f62235839dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 3/8] fix: AppText keeps texts that are empty or not
 NUL-terminated

unpack dropped the last byte of the text even if it was not a terminating NUL, and pack
of a text with text_length 0 produced one byte more than the object size.
---
 src/vblf/general.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..bd8f45a 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -500,7 +500,8 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             reserved2,
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
+        text_bytes = buffer[text_offset : text_offset + text_length]
+        text = text_bytes.removesuffix(b"\x00").decode("cp1252")
         return cls(
             header,
             AppTextSource(source),
@@ -521,7 +522,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = self.text.encode("cp1252")
+        if len(encoded_text) < self.text_length:
+            encoded_text += b"\x00"
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From 4eea3d5d9540a9972747cecd1928502e72cc80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 4/8] fix: writing survives a system clock that steps backwards

A clock set back below the measurement start gave a negative container time stamp, which
cannot be packed: write or close failed and the buffered objects were lost.
---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..fc540be 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -98,7 +98,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
+            time_stamp=max(0, round((time.time() - self._measurement_start_time) * 1e9)),
             flags=ObjFlags.TIME_ONE_NANS,
         )
         self._file.write(log_container.pack())
-- 
2.43.0


From 2c06e7e87b2fdef67ac74d14f5c742b884f94fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 5/8] fix: BlfWriter refuses a buffer size below 1

Such a writer could never empty its buffer: close looped forever.
---
 src/vblf/writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index fc540be..f528c76 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If buffer size is not positive
     """
 
     def __init__(
@@ -33,6 +34,10 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size < 1:
+            err_msg = f"Buffer size must be positive, got {buffer_size}"
+            raise ValueError(err_msg)
+
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From 215fc620fe4fa85ab7fe55cf8eb5f463d91fe0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 6/8] fix: BlfWriter.write flushes until the buffer is no
 longer full

Only one buffer size worth of data was flushed per write, so with objects larger than the
buffer the unwritten data grew without bound.
---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index f528c76..ff2a7a8 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -78,7 +78,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.uncompressed_file_size += len(obj_data)
         self._time_of_last_object = time.time()
 
-        if len(self._buffer) >= self._buffer_size:
+        while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
     def _flush_container(self) -> None:
-- 
2.43.0


From 417507e1d0d4733b63f26aaba6ee103b5c6f8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 7/8] fix: BlfReader skips objects that declare less than a
 header

A declared size below the size of the base header led to a read with a negative length,
which consumed the rest of the stream as part of that object.
---
 src/vblf/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..77259cd 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -112,6 +112,11 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
 
+            if header_base.object_size < ObjectHeaderBase.SIZE:
+                # not a valid object, continue the search behind the signature
+                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
+                continue
+
             # read object data
             obj_data = header_base_data + stream.read(
                 header_base.object_size - ObjectHeaderBase.SIZE
-- 
2.43.0


From 1ba14d45ea4345150fa7f29946bc6e94ad52f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 8/8] fix: refuse writing to a closed writer

BlfWriter.write after close put the object in the buffer, where it was lost
without a trace.
---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index ff2a7a8..0e3de8d 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -64,8 +64,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the file is closed
         """
+        if self._file.closed:
+            err_msg = "Cannot write to a closed file"
+            raise ValueError(err_msg)
+
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0

