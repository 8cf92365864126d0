From 3b2a32f539fff02ee6bdd268baca551789c7c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 01/22] fix: flush as many containers as needed after a write

A write larger than the buffer flushed only one container, so the held back data grew without bound.
---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..25f0747 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -73,7 +73,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.uncompressed_file_size += len(obj_data)
         self._time_of_last_object = time.time()
 
-        if len(self._buffer) >= self._buffer_size:
+        while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
     def _flush_container(self) -> None:
-- 
2.43.0


From 1c13c5f74786cb8ab148db81af266ab49f08fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 02/22] fix: reject a buffer size that is not positive

close() never came to an end with such a buffer size.
---
 src/vblf/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 25f0747..26f33e7 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If buffer_size is not positive
     """
 
     def __init__(
@@ -33,6 +34,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size < 1:
+            err_msg = f"Buffer size must be positive: {buffer_size}"
+            raise ValueError(err_msg)
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From bfa09243ff07a46111570818fd80b42fb682b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 03/22] fix: raise when writing after close

The object was buffered and silently lost.
---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 26f33e7..a70c7e4 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -63,8 +63,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the file is closed
         """
+        if self._file.closed:
+            err_msg = "Write to closed file"
+            raise ValueError(err_msg)
+
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0


From 9312cc460397d453ee92315d629b358202d95f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 04/22] fix: keep buffered data until it is in the file

If writing a container failed, its data was lost or, after a failed header update,
written over the file header.
---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index a70c7e4..d1eedcd 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -93,11 +93,14 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if not self._buffer:
             return
 
+        # continue after the last complete container, also if a previous file access failed
+        self._file.seek(self._file_statistics.file_size)
+
         # byte alignment
         if rest := self._file.tell() % BYTE_ALIGNMENT:
             self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
 
-        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
+        buffer = self._buffer[: self._buffer_size]
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
@@ -111,6 +114,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
+        del self._buffer[: len(buffer)]
 
     def _update_file_statistics(self) -> None:
         """Update file statistics and write them to the beginning of the file.
-- 
2.43.0


From 8756b5eca782cdaca1a933087c9d94d2ebed6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 05/22] fix: write compression method and uncompressed size of
 containers

Containers were always declared as compressed and had a timestamp where the
uncompressed size belongs. The timestamp was also negative, and the write failed,
if the system clock was set back.
---
 src/vblf/constants.py |  2 ++
 src/vblf/writer.py    | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/vblf/constants.py b/src/vblf/constants.py
index bdb68ba..2be6b11 100644
--- a/src/vblf/constants.py
+++ b/src/vblf/constants.py
@@ -4,6 +4,8 @@ from typing import Final
 FILE_SIGNATURE: Final = b"LOGG"
 OBJ_SIGNATURE: Final = b"LOBJ"
 OBJ_SIGNATURE_SIZE: Final = len(OBJ_SIGNATURE)
+COMPRESSION_METHOD_NONE: Final = 0
+COMPRESSION_METHOD_ZLIB: Final = 2
 
 
 class ObjType(IntEnum):
diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index d1eedcd..397ab9f 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -5,7 +5,12 @@ import zlib
 from contextlib import AbstractContextManager
 from typing import Any, BinaryIO, Final
 
-from vblf.constants import Compression, ObjFlags
+from vblf.constants import (
+    COMPRESSION_METHOD_NONE,
+    COMPRESSION_METHOD_ZLIB,
+    Compression,
+    ObjFlags,
+)
 from vblf.general import FileStatistics, HeaderWithBase, LogContainer, ObjectWithHeader, SystemTime
 
 BYTE_ALIGNMENT: Final = 8
@@ -104,13 +109,17 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
+            compression_method = COMPRESSION_METHOD_ZLIB
         else:
             compressed_data = bytes(buffer)
+            compression_method = COMPRESSION_METHOD_NONE
 
+        # a container has the compression method in place of the object flags
+        # and the size of its uncompressed data in place of the timestamp
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
-            flags=ObjFlags.TIME_ONE_NANS,
+            time_stamp=len(buffer),
+            flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
-- 
2.43.0


From 153d7f5f94aa13d209118658ce4af7073521757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 06/22] fix: read stored containers in a compressed log

---
 src/vblf/reader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..5b05c3b 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -21,7 +21,13 @@ from vblf.can import (
     CanMessage2,
     CanOverloadFrame,
 )
-from vblf.constants import FILE_SIGNATURE, OBJ_SIGNATURE, OBJ_SIGNATURE_SIZE, ObjType
+from vblf.constants import (
+    COMPRESSION_METHOD_NONE,
+    FILE_SIGNATURE,
+    OBJ_SIGNATURE,
+    OBJ_SIGNATURE_SIZE,
+    ObjType,
+)
 from vblf.ethernet import EthernetFrameEx, EthernetStatistic
 from vblf.flexray import FlexrayVFrReceiveMsgEx
 from vblf.general import (
@@ -131,6 +137,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 uncompressed = (
                     zlib.decompress(container.data)
                     if self.file_statistics.compression_level > 0
+                    and container.header.object_flags & 0xFFFF != COMPRESSION_METHOD_NONE
                     else container.data
                 )
 
-- 
2.43.0


From 26a0afd507c160955e9e0da492acec00e9142b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 07/22] fix: skip objects that are smaller than their header

The negative read size swallowed the rest of the container or file.
---
 src/vblf/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 5b05c3b..4e4d809 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -118,6 +118,11 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
 
+            if header_base.object_size < ObjectHeaderBase.SIZE:
+                # not an object, continue the search after this byte
+                stream.seek(1 - ObjectHeaderBase.SIZE, os.SEEK_CUR)
+                continue
+
             # read object data
             obj_data = header_base_data + stream.read(
                 header_base.object_size - ObjectHeaderBase.SIZE
-- 
2.43.0


From 5e2352fc764ecab516e9787c3e48a7b96b68792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 08/22] fix: use the offset for the base header in
 VarObjectHeader.unpack_from

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From 5a35da7ad3b8e2bbe2b476c4b0b9aeca7fe8fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 09/22] fix: keep AppText without terminating zero

The last character of such a text was lost and an empty text could not be packed.
---
 src/vblf/general.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..22f68a6 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -500,7 +500,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             reserved2,
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
+        text = (
+            buffer[text_offset : text_offset + text_length].removesuffix(b"\x00").decode("cp1252")
+        )
         return cls(
             header,
             AppTextSource(source),
@@ -521,7 +523,7 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = self.text.encode("cp1252").ljust(self.text_length, b"\x00")
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From 4151bb0e0e8ea2d7b91afd5b8493d03de0546678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 10/22] fix: CanFdErrorFrame64 without extended data

With an offset of zero the header was read as, and overwritten with, the extended data.
---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From 5167d39e47e4bd27be03cdf0c0197a67843263f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 11/22] fix: keep unknown values of enumerations

An object with such a value raised ValueError and ended the reading of the log.
---
 src/vblf/constants.py | 35 +++++++++++++++++++++++++++++++++++
 src/vblf/general.py   | 20 ++++++++++----------
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/vblf/constants.py b/src/vblf/constants.py
index 2be6b11..adf3860 100644
--- a/src/vblf/constants.py
+++ b/src/vblf/constants.py
@@ -217,6 +217,13 @@ class SysVarType(IntEnum):
     LONGLONG = 6
     BYTEARRAY = 7
 
+    @staticmethod
+    def from_int(sys_var_type: int) -> "SysVarType | int":
+        try:
+            return SysVarType(sys_var_type)
+        except ValueError:
+            return sys_var_type
+
 
 class BusType(IntEnum):
     CAN = 1
@@ -228,6 +235,13 @@ class BusType(IntEnum):
     WLAN = 13
     AFDX = 14
 
+    @staticmethod
+    def from_int(bus_type: int) -> "BusType | int":
+        try:
+            return BusType(bus_type)
+        except ValueError:
+            return bus_type
+
 
 class AppTextSource(IntEnum):
     MEASUREMENTCOMMENT = 0
@@ -236,6 +250,13 @@ class AppTextSource(IntEnum):
     ATTACHMENT = 3
     TRACELINE = 4
 
+    @staticmethod
+    def from_int(source: int) -> "AppTextSource | int":
+        try:
+            return AppTextSource(source)
+        except ValueError:
+            return source
+
 
 class FunctionBusType(IntEnum):
     UNDEFINED = 0
@@ -243,9 +264,23 @@ class FunctionBusType(IntEnum):
     SERVICE_FUNCTION = 2
     STATE = 3
 
+    @staticmethod
+    def from_int(function_bus_type: int) -> "FunctionBusType | int":
+        try:
+            return FunctionBusType(function_bus_type)
+        except ValueError:
+            return function_bus_type
+
 
 class TriggerConditionStatus(IntEnum):
     UNKNOWN = 0
     START = 1
     STOP = 2
     STARTSTOP = 3
+
+    @staticmethod
+    def from_int(status: int) -> "TriggerConditionStatus | int":
+        try:
+            return TriggerConditionStatus(status)
+        except ValueError:
+            return status
diff --git a/src/vblf/general.py b/src/vblf/general.py
index 22f68a6..2450b1e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -484,7 +484,7 @@ class LogContainer(ObjectWithHeader[ObjectHeader]):
 class AppText(ObjectWithHeader[ObjectHeader]):
     _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIII")
     header: ObjectHeader
-    source: AppTextSource
+    source: Union[int, AppTextSource]
     reserved1: int
     text_length: int
     reserved2: int
@@ -505,7 +505,7 @@ class AppText(ObjectWithHeader[ObjectHeader]):
         )
         return cls(
             header,
-            AppTextSource(source),
+            AppTextSource.from_int(source),
             reserved1,
             text_length,
             reserved2,
@@ -630,7 +630,7 @@ class EnvironmentVariable(ObjectWithHeader[ObjectHeader]):
 class SystemVariable(ObjectWithHeader[ObjectHeader]):
     _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIQIIQ")
     header: ObjectHeader
-    type: SysVarType
+    type: Union[int, SysVarType]
     representation: int
     reserved1: int
     name_length: int
@@ -661,7 +661,7 @@ class SystemVariable(ObjectWithHeader[ObjectHeader]):
 
         return cls(
             header,
-            SysVarType(type_),
+            SysVarType.from_int(type_),
             representation,
             reserved1,
             name_length,
@@ -721,7 +721,7 @@ class RealTimeClock(ObjectWithHeader[ObjectHeader]):
 class DriverOverrun(ObjectWithHeader[ObjectHeader]):
     _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHH")
     header: ObjectHeader
-    bus_type: BusType
+    bus_type: Union[int, BusType]
     channel: int
     reserved: int
 
@@ -735,7 +735,7 @@ class DriverOverrun(ObjectWithHeader[ObjectHeader]):
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         return cls(
             header,
-            BusType(bus_type),
+            BusType.from_int(bus_type),
             channel,
             reserved,
         )
@@ -886,7 +886,7 @@ class GlobalMarker(ObjectWithHeader[ObjectHeader]):
 class FunctionBus(ObjectWithHeader[VarObjectHeader]):
     _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIII")
     header: VarObjectHeader
-    object_type: FunctionBusType
+    object_type: Union[int, FunctionBusType]
     ve_type: int
     name_length: int
     data_length: int
@@ -914,7 +914,7 @@ class FunctionBus(ObjectWithHeader[VarObjectHeader]):
 
         return cls(
             header,
-            FunctionBusType(object_type),
+            FunctionBusType.from_int(object_type),
             ve_type,
             name_length,
             data_length,
@@ -940,7 +940,7 @@ class FunctionBus(ObjectWithHeader[VarObjectHeader]):
 class TriggerCondition(ObjectWithHeader[VarObjectHeader]):
     _FORMAT: ClassVar[struct.Struct] = struct.Struct("III")
     header: VarObjectHeader
-    state: TriggerConditionStatus
+    state: Union[int, TriggerConditionStatus]
     trigger_block_name_length: int
     trigger_condition_length: int
     trigger_block_name: str
@@ -971,7 +971,7 @@ class TriggerCondition(ObjectWithHeader[VarObjectHeader]):
 
         return cls(
             header,
-            TriggerConditionStatus(state),
+            TriggerConditionStatus.from_int(state),
             trigger_block_name_length,
             trigger_condition_length,
             trigger_block_name,
-- 
2.43.0


From c620471cc9abc10502c85ffa8b78ce4d6059cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 12/22] fix: keep text bytes that are undefined in the text's
 encoding

An object with such a text raised UnicodeDecodeError and ended the reading of the log.
---
 src/vblf/general.py | 48 ++++++++++++++++++++++++++-------------------
 src/vblf/tp_diag.py | 12 ++++++------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 2450b1e..5bb0091 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -501,7 +501,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
         text = (
-            buffer[text_offset : text_offset + text_length].removesuffix(b"\x00").decode("cp1252")
+            buffer[text_offset : text_offset + text_length]
+            .removesuffix(b"\x00")
+            .decode("cp1252", "surrogateescape")
         )
         return cls(
             header,
@@ -523,7 +525,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252").ljust(self.text_length, b"\x00")
+        encoded_text = self.text.encode("cp1252", "surrogateescape").ljust(
+            self.text_length, b"\x00"
+        )
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
@@ -585,7 +589,7 @@ class EnvironmentVariable(ObjectWithHeader[ObjectHeader]):
 
         # get name
         name_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        name = buffer[name_offset : name_offset + name_length].decode("cp1252")
+        name = buffer[name_offset : name_offset + name_length].decode("cp1252", "surrogateescape")
 
         # get data
         data_offset = name_offset + name_length
@@ -617,7 +621,9 @@ class EnvironmentVariable(ObjectWithHeader[ObjectHeader]):
 
         # write name
         name_offset = ObjectHeader.SIZE + self._FORMAT.size
-        buffer[name_offset : name_offset + self.name_length] = self.name.encode("cp1252")
+        buffer[name_offset : name_offset + self.name_length] = self.name.encode(
+            "cp1252", "surrogateescape"
+        )
 
         # write data
         data_offset = name_offset + self.name_length
@@ -653,7 +659,7 @@ class SystemVariable(ObjectWithHeader[ObjectHeader]):
 
         # get name
         name_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        name = buffer[name_offset : name_offset + name_length].decode("cp1252")
+        name = buffer[name_offset : name_offset + name_length].decode("cp1252", "surrogateescape")
 
         # get data
         data_offset = name_offset + name_length
@@ -691,7 +697,9 @@ class SystemVariable(ObjectWithHeader[ObjectHeader]):
 
         # write name
         name_offset = ObjectHeader.SIZE + self._FORMAT.size
-        buffer[name_offset : name_offset + self.name_length] = self.name.encode("cp1252")
+        buffer[name_offset : name_offset + self.name_length] = self.name.encode(
+            "cp1252", "surrogateescape"
+        )
 
         # write data
         data_offset = name_offset + self.name_length
@@ -766,7 +774,7 @@ class EventComment(ObjectWithHeader[ObjectHeader]):
             reserved,
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
+        text = buffer[text_offset : text_offset + text_length].decode("cp1252", "surrogateescape")
         return cls(
             header,
             commented_event_type,
@@ -785,7 +793,7 @@ class EventComment(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved,
         )
-        encoded_text = self.text.encode("cp1252")
+        encoded_text = self.text.encode("cp1252", "surrogateescape")
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
@@ -830,17 +838,17 @@ class GlobalMarker(ObjectWithHeader[ObjectHeader]):
         # get group_name
         group_name_offset = ObjectHeader.SIZE + cls._FORMAT.size
         _group_name = buffer[group_name_offset : group_name_offset + group_name_length]
-        group_name = _group_name.decode("cp1252")
+        group_name = _group_name.decode("cp1252", "surrogateescape")
 
         # get marker_name
         marker_name_offset = group_name_offset + group_name_length
         _marker_name = buffer[marker_name_offset : marker_name_offset + marker_name_length]
-        marker_name = _marker_name.decode("cp1252")
+        marker_name = _marker_name.decode("cp1252", "surrogateescape")
 
         # get marker_name
         description_offset = marker_name_offset + marker_name_length
         _description = buffer[description_offset : description_offset + description_length]
-        description = _description.decode("cp1252")
+        description = _description.decode("cp1252", "surrogateescape")
 
         return cls(
             header,
@@ -876,9 +884,9 @@ class GlobalMarker(ObjectWithHeader[ObjectHeader]):
                 self.reserved3,
                 self.reserved4,
             )
-            + self.group_name.encode("cp1252")
-            + self.marker_name.encode("cp1252")
-            + self.description.encode("cp1252")
+            + self.group_name.encode("cp1252", "surrogateescape")
+            + self.marker_name.encode("cp1252", "surrogateescape")
+            + self.description.encode("cp1252", "surrogateescape")
         )
 
 
@@ -906,7 +914,7 @@ class FunctionBus(ObjectWithHeader[VarObjectHeader]):
         # get name
         name_offset = ObjectHeader.SIZE + cls._FORMAT.size
         _name = buffer[name_offset : name_offset + name_length]
-        name = _name.decode("cp1252")
+        name = _name.decode("cp1252", "surrogateescape")
 
         # get data
         data_offset = name_offset + name_length
@@ -931,7 +939,7 @@ class FunctionBus(ObjectWithHeader[VarObjectHeader]):
                 self.name_length,
                 self.data_length,
             )
-            + self.name.encode("cp1252")
+            + self.name.encode("cp1252", "surrogateescape")
             + self.data
         )
 
@@ -960,14 +968,14 @@ class TriggerCondition(ObjectWithHeader[VarObjectHeader]):
         _trigger_block_name = buffer[
             trigger_block_name_offset : trigger_block_name_offset + trigger_block_name_length
         ]
-        trigger_block_name = _trigger_block_name.decode("cp1252")
+        trigger_block_name = _trigger_block_name.decode("cp1252", "surrogateescape")
 
         # get trigger_condition
         trigger_condition_offset = trigger_block_name_offset + trigger_block_name_length
         _trigger_condition = buffer[
             trigger_condition_offset : trigger_condition_offset + trigger_condition_length
         ]
-        trigger_condition = _trigger_condition.decode("cp1252")
+        trigger_condition = _trigger_condition.decode("cp1252", "surrogateescape")
 
         return cls(
             header,
@@ -986,6 +994,6 @@ class TriggerCondition(ObjectWithHeader[VarObjectHeader]):
                 self.trigger_block_name_length,
                 self.trigger_condition_length,
             )
-            + self.trigger_block_name.encode("cp1252")
-            + self.trigger_condition.encode("cp1252")
+            + self.trigger_block_name.encode("cp1252", "surrogateescape")
+            + self.trigger_condition.encode("cp1252", "surrogateescape")
         )
diff --git a/src/vblf/tp_diag.py b/src/vblf/tp_diag.py
index ca2491b..9dadcdc 100644
--- a/src/vblf/tp_diag.py
+++ b/src/vblf/tp_diag.py
@@ -38,13 +38,13 @@ class DiagRequestInterpretation(ObjectWithHeader[ObjectHeader]):
 
         ecu_qualifier = buffer[
             ecu_qualifier_offset : ecu_qualifier_offset + ecu_qualifier_length
-        ].decode("utf-8")
+        ].decode("utf-8", "surrogateescape")
         variant_qualifier = buffer[
             variant_qualifier_offset : variant_qualifier_offset + variant_qualifier_length
-        ].decode("utf-8")
+        ].decode("utf-8", "surrogateescape")
         service_qualifier = buffer[
             service_qualifier_offset : service_qualifier_offset + service_qualifier_length
-        ].decode("utf-8")
+        ].decode("utf-8", "surrogateescape")
 
         return cls(
             header,
@@ -78,13 +78,13 @@ class DiagRequestInterpretation(ObjectWithHeader[ObjectHeader]):
         service_qualifier_offset = variant_qualifier_offset + self.variant_qualifier_length
 
         buffer[ecu_qualifier_offset : ecu_qualifier_offset + self.ecu_qualifier_length] = (
-            self.ecu_qualifier.encode("utf-8")
+            self.ecu_qualifier.encode("utf-8", "surrogateescape")
         )
         buffer[
             variant_qualifier_offset : variant_qualifier_offset + self.variant_qualifier_length
-        ] = self.variant_qualifier.encode("utf-8")
+        ] = self.variant_qualifier.encode("utf-8", "surrogateescape")
         buffer[
             service_qualifier_offset : service_qualifier_offset + self.service_qualifier_length
-        ] = self.service_qualifier.encode("utf-8")
+        ] = self.service_qualifier.encode("utf-8", "surrogateescape")
 
         return bytes(buffer)
-- 
2.43.0


From 7f1fd0dd50e141d0550f675036a69bc98c28defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 13/22] fix: refuse more data than a CAN message can hold

The message constructors accepted it and the excess was silently cut off when writing.
---
 src/vblf/can.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index cb696f2..4fee13d 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -1,6 +1,6 @@
 import struct
 from dataclasses import dataclass
-from typing import ClassVar
+from typing import ClassVar, Final
 
 from typing_extensions import Self
 
@@ -8,6 +8,9 @@ from vblf.constants import CanFdFlags, ObjFlags, ObjType
 
 from .general import ObjectHeader, ObjectWithHeader
 
+CAN_MAX_DATA_LENGTH: Final = 8
+CAN_FD_MAX_DATA_LENGTH: Final = 64
+
 
 @dataclass
 class CanMessage(ObjectWithHeader[ObjectHeader]):
@@ -58,6 +61,9 @@ class CanMessage(ObjectWithHeader[ObjectHeader]):
         frame_id: int,
         data: bytes,
     ) -> Self:
+        if len(data) > CAN_MAX_DATA_LENGTH:
+            err_msg = f"Too much data: {len(data)} > {CAN_MAX_DATA_LENGTH}"
+            raise ValueError(err_msg)
         header = ObjectHeader.new(
             ObjectHeader.SIZE + cls._FORMAT.size,
             ObjType.CAN_MESSAGE,
@@ -142,6 +148,9 @@ class CanMessage2(ObjectWithHeader[ObjectHeader]):
         frame_length: int,
         bit_count: int,
     ) -> Self:
+        if len(data) > CAN_MAX_DATA_LENGTH:
+            err_msg = f"Too much data: {len(data)} > {CAN_MAX_DATA_LENGTH}"
+            raise ValueError(err_msg)
         header = ObjectHeader.new(
             ObjectHeader.SIZE + cls._FORMAT.size,
             ObjType.CAN_MESSAGE2,
@@ -243,6 +252,9 @@ class CanFdMessage(ObjectWithHeader[ObjectHeader]):
         canfd_flags: CanFdFlags,
         data: bytes,
     ) -> Self:
+        if len(data) > CAN_FD_MAX_DATA_LENGTH:
+            err_msg = f"Too much data: {len(data)} > {CAN_FD_MAX_DATA_LENGTH}"
+            raise ValueError(err_msg)
         header = ObjectHeader.new(
             ObjectHeader.SIZE + cls._FORMAT.size,
             ObjType.CAN_FD_MESSAGE,
-- 
2.43.0


From 25dda0c15d32eb817657a0395efd9f6c8a33a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 14/22] fix: flush the file before closing it

If the buffered data could not be stored, the file object was closed nevertheless:
repeating close() had no effect and the data was lost.
---
 src/vblf/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 397ab9f..2d1e0a7 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -145,6 +145,8 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             while self._buffer:
                 self._flush_container()
             self._update_file_statistics()
+            # a failing flush leaves the file open, so that close() can be repeated
+            self._file.flush()
             self._file.close()
 
     def __enter__(self) -> "BlfWriter":
-- 
2.43.0


From 1f5fe41777acb9e0a597a5b88f75bb3ca5a024ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 15/22] fix: keep the reader usable after an abandoned
 iteration

Iterating handed out the reader's own generator, which 'yield from' closes
together with the delegating generator: the remaining objects were lost.
---
 src/vblf/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 4e4d809..c3abe2c 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -171,7 +171,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
 
         :returns: Iterator yielding parsed BLF objects
         """
-        return self._generator.__iter__()
+        return iter(self.read_object, None)
 
     def __enter__(self) -> "BlfReader":
         """Enter context manager.
-- 
2.43.0


From 75f6f938ef0c4643e150ac1e48515ab015e2933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 16/22] fix: close the file when the reader refuses its format

---
 src/vblf/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index c3abe2c..28f331b 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -85,6 +85,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
 
         obj_data = self._file.read(FileStatistics.SIZE)
         if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
+            if self._file is not file:
+                self._file.close()
             err_msg = "Unexpected file format"
             raise ValueError(err_msg)
 
-- 
2.43.0


From dad776a623b9debd050b635c6aa57bb11e340b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 17/22] fix: refuse unsupported compression levels before the
 file is opened

---
 src/vblf/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 2d1e0a7..fb8a0bf 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -26,7 +26,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
-    :raises ValueError: If buffer_size is not positive
+    :raises ValueError: If buffer_size is not positive or compression_level is not between 0 and 9
     """
 
     def __init__(
@@ -42,6 +42,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if buffer_size < 1:
             err_msg = f"Buffer size must be positive: {buffer_size}"
             raise ValueError(err_msg)
+        if not Compression.NONE <= compression_level <= Compression.MAX:
+            err_msg = f"Compression level must be between 0 and 9: {compression_level}"
+            raise ValueError(err_msg)
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From ea7734a81d81985443dfbce1bf9bcfd0e6beee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 18/22] fix: make the package usable without its metadata

---
 src/vblf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vblf/__init__.py b/src/vblf/__init__.py
index 33b6184..8b2c3e2 100644
--- a/src/vblf/__init__.py
+++ b/src/vblf/__init__.py
@@ -1,5 +1,7 @@
 import contextlib
 from importlib.metadata import PackageNotFoundError, version
 
+# used if the package is not installed, e.g. in a source tree or a zip archive
+__version__ = "0.0.0"
 with contextlib.suppress(PackageNotFoundError):
     __version__ = version("vblf")
-- 
2.43.0


From b1931fee953ca0392995f0f9161692bb01e8f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 19/22] fix: refuse compression levels and buffer sizes that
 are no integers

---
 src/vblf/writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index fb8a0bf..db24e27 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -1,4 +1,5 @@
 import datetime
+import operator
 import os
 import time
 import zlib
@@ -25,7 +26,8 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param file: Path to BLF file or file-like object
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
-    :raises TypeError: If file parameter is of unsupported type
+    :raises TypeError: If file parameter is of unsupported type, or buffer_size or
+        compression_level is no integer
     :raises ValueError: If buffer_size is not positive or compression_level is not between 0 and 9
     """
 
@@ -39,6 +41,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        # raises TypeError for anything but integers
+        operator.index(buffer_size)
+        operator.index(compression_level)
         if buffer_size < 1:
             err_msg = f"Buffer size must be positive: {buffer_size}"
             raise ValueError(err_msg)
-- 
2.43.0


From ecba2073428c982e5823c97cd20eebaa516c9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 20/22] fix: an interrupt in a flush could leave its data in
 the file and in the buffer

---
 src/vblf/writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index db24e27..40f8c2f 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -130,8 +130,11 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
-        self._file_statistics.file_size = self._file.tell()
-        del self._buffer[: len(buffer)]
+        file_size = self._file.tell()
+        # no calls from here: a signal handler (KeyboardInterrupt) must not see
+        # the data in the file and in the buffer
+        self._file_statistics.file_size = file_size
+        del self._buffer[: self._buffer_size]
 
     def _update_file_statistics(self) -> None:
         """Update file statistics and write them to the beginning of the file.
-- 
2.43.0


From 7f645da53fbf7071e88f5dac6d8ea11182af8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 21/22] fix: times and base headers were encoded in the order
 their attributes had been set

An object whose attributes were set in another order (as by deserialisers that
build it with __new__), set anew after deletion, or extended by an attribute of
the user was encoded wrongly or not at all.
---
 src/vblf/general.py | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 5bb0091..59432de 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -41,14 +41,34 @@ class SystemTime:
         return cls(*cls._FORMAT.unpack(buffer))
 
     def pack(self) -> bytes:
-        return self._FORMAT.pack(*self.__dict__.values())
+        return self._FORMAT.pack(
+            self.year,
+            self.month,
+            self.day_of_week,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+            self.milliseconds,
+        )
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
         return cls(*cls._FORMAT.unpack_from(buffer, offset))
 
     def pack_into(self, buffer: bytearray, offset: int) -> None:
-        return self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
+        return self._FORMAT.pack_into(
+            buffer,
+            offset,
+            self.year,
+            self.month,
+            self.day_of_week,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+            self.milliseconds,
+        )
 
     @classmethod
     def from_datetime(cls, dt: Optional[datetime.datetime] = None) -> Self:
@@ -122,10 +142,24 @@ class ObjectHeaderBase:
         )
 
     def pack(self) -> bytes:
-        return self._FORMAT.pack(*self.__dict__.values())
+        return self._FORMAT.pack(
+            self.signature,
+            self.header_size,
+            self.header_version,
+            self.object_size,
+            self.object_type,
+        )
 
     def pack_into(self, buffer: bytearray, offset: int) -> None:
-        self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
+        self._FORMAT.pack_into(
+            buffer,
+            offset,
+            self.signature,
+            self.header_size,
+            self.header_version,
+            self.object_size,
+            self.object_type,
+        )
 
 
 @dataclass
-- 
2.43.0


From 970048cf47be6fcab990d176e39c23037bd85328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 22/22] fix: every combination of flags ever read was kept in
 memory for good

---
 src/vblf/constants.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vblf/constants.py b/src/vblf/constants.py
index adf3860..423a7dd 100644
--- a/src/vblf/constants.py
+++ b/src/vblf/constants.py
@@ -1,11 +1,22 @@
 from enum import IntEnum, IntFlag
-from typing import Final
+from typing import Any, Final
 
 FILE_SIGNATURE: Final = b"LOGG"
 OBJ_SIGNATURE: Final = b"LOBJ"
 OBJ_SIGNATURE_SIZE: Final = len(OBJ_SIGNATURE)
 COMPRESSION_METHOD_NONE: Final = 0
 COMPRESSION_METHOD_ZLIB: Final = 2
+MAX_KEPT_FLAGS: Final = 256
+
+
+class _Flags(IntFlag):
+    @classmethod
+    def _missing_(cls, value: object) -> Any:
+        flags = super()._missing_(value)
+        # enum keeps every combination it has seen, but a log may contain any number of them
+        if len(cls._value2member_map_) > MAX_KEPT_FLAGS:
+            cls._value2member_map_.pop(value, None)
+        return flags
 
 
 class ObjType(IntEnum):
@@ -180,18 +191,18 @@ class Compression(IntEnum):
             return compression_level
 
 
-class ObjFlags(IntFlag):
+class ObjFlags(_Flags):
     TIME_TEN_MICS = 0x1
     TIME_ONE_NANS = 0x2
 
 
-class TriggerFlag(IntFlag):
+class TriggerFlag(_Flags):
     SINGLE_TRIGGER = 0x0
     LOGGING_START = 0x1
     LOGGING_STOP = 0x2
 
 
-class CanFdFlags(IntFlag):
+class CanFdFlags(_Flags):
     NERR = 0x0004
     HIGH_VOLTAGE_WAKE_UP = 0x0008
     REMOTE_FRAME = 0x0010
-- 
2.43.0

