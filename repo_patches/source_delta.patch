From 0aa490a86031c87d5862b49b113e46cf16ffec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 01/65] fix: record RegExps in the encoder's object reference
 table

V8 assigns an object id to every RegExp it reads. The encoder did not, so
every object reference written after a RegExp was off by one.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..180867d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 34b23a2b86f751c213027f51b980639a5afa52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 02/65] fix: record Errors without a cause in the encoder's
 object reference table

The decoder (and V8) assign an object id to every Error. The encoder only
did so for errors with a cause, so references written after one without a
cause were wrong, and shared errors were written twice.
---
 src/v8serialize/encode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 180867d..2a24d78 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -409,7 +409,9 @@ class WritableTagStream:
             self.write_varint(SerializationErrorTag.Stack)
             self.write_string_utf8(stack)
         cause = error.cause
-        if cause is not None:
+        if cause is None:
+            self.objects.record_reference(identity)
+        else:
             self.write_varint(SerializationErrorTag.Cause)
             if SerializationFeature.CircularErrorCause in self.features:
                 self.objects.record_reference(identity)
-- 
2.43.0


From 0fb573708ccf4f3921bb06c8e8c10bc4a9123b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 03/65] fix: record shared and transferred buffers in the
 decoder's reference table

The encoder (and V8) assign an object id to SharedArrayBuffers and
transferred ArrayBuffers; the decoder did not, so any later object reference
resolved to the wrong object.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From 3be20e79342b27ef05fb1930da05ae9a633ce9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 04/65] fix: assign object ids to host objects

V8 assigns an object id to each HostObject. Neither the encoder nor the
decoder did, so shared references after a Node.js buffer view were decoded
as the wrong object.
---
 src/v8serialize/decode.py | 25 ++++++++++++++++++++-----
 src/v8serialize/encode.py |  7 ++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..9da9fbe 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -39,7 +39,12 @@ from v8serialize._pycompat.typing import (
     get_buffer,
     is_readable_binary,
 )
-from v8serialize._references import SerializedId, SerializedObjectLog
+from v8serialize._references import (
+    ForwardReference,
+    ForwardReferenceError,
+    SerializedId,
+    SerializedObjectLog,
+)
 from v8serialize._values import AnyJSError as AnyJSError
 from v8serialize._values import ArrayBufferConstructor as ArrayBufferConstructor
 from v8serialize._values import (
@@ -671,8 +676,11 @@ class ReadableTagStream:
         serialized_id = SerializedId(self.read_varint())
 
         try:
-            return serialized_id, self.objects.get_object(serialized_id)
-        except V8SerializeError as e:
+            obj = self.objects.get_object(serialized_id)
+            if isinstance(obj, ForwardReference):
+                obj = obj.get_value()
+            return serialized_id, obj
+        except (V8SerializeError, ForwardReferenceError) as e:
             self.throw(
                 "ObjectReference contains serialized ID which has not been "
                 "deserialized",
@@ -822,9 +830,16 @@ class ReadableTagStream:
     ) -> T:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
+        # Host objects are assigned their ID before their data is read, but the
+        # object isn't available until the deserializer has returned it.
+        reference: ForwardReference[T] = ForwardReference()
+        self.objects.record_reference(reference)
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        reference.set_value(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 2a24d78..2fc8532 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -688,8 +688,13 @@ class WritableTagStream:
         self.write_varint(flags)
 
     def write_host_object(
-        self, value: T, *, serializer: HostObjectSerializer[T]
+        self,
+        value: T,
+        *,
+        serializer: HostObjectSerializer[T],
+        identity: object | None = None,
     ) -> None:
+        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From 741c5a6ed1d15bd2073b0c04c7e68ee61914d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 05/65] fix: read and write the tag of strings nested in String
 objects

V8 writes the string inside a String object as a regular tagged string. We
read and wrote it without a tag, so V8's data failed to decode and V8 could
not read ours.
---
 src/v8serialize/constants.py | 10 ++++++++++
 src/v8serialize/decode.py    | 11 ++++++++++-
 src/v8serialize/encode.py    |  3 ++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index d6a12cd..6f9da36 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -789,6 +789,16 @@ StringTag = Literal[
     SerializationTag.kStringObject,
 ]
 
+JS_PRIMITIVE_STRING_TAGS = TagConstraint[SerializationTag](
+    name="Primitive Strings",
+    allowed_tags=frozenset(
+        {
+            SerializationTag.kUtf8String,
+            SerializationTag.kOneByteString,
+            SerializationTag.kTwoByteString,
+        }
+    ),
+)
 JS_STRING_TAGS = TagConstraint[StringTag](
     name="Strings",
     allowed_tags=frozenset(
diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9da9fbe..12f2607 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -65,6 +65,7 @@ from v8serialize.constants import (
     JS_CONSTANT_TAGS,
     JS_OBJECT_KEY_TAGS,
     JS_PRIMITIVE_OBJECT_TAGS,
+    JS_PRIMITIVE_STRING_TAGS,
     JS_STRING_TAGS,
     UINT32_RANGE,
     AnySerializationTag,
@@ -401,7 +402,15 @@ class ReadableTagStream:
                 self.read_bigint(tag=False), tag=SerializationTag.kBigIntObject
             )
         elif tag is SerializationTag.kStringObject:
-            result = JSPrimitiveObject(self.read_string_utf8(tag=False))
+            # The string nested in a String object has its own tag, and V8
+            # can use any of the string representations.
+            string_tag = self.read_tag(tag=JS_PRIMITIVE_STRING_TAGS)
+            if string_tag is SerializationTag.kOneByteString:
+                result = JSPrimitiveObject(self.read_string_onebyte())
+            elif string_tag is SerializationTag.kTwoByteString:
+                result = JSPrimitiveObject(self.read_string_twobyte())
+            else:
+                result = JSPrimitiveObject(self.read_string_utf8())
         else:
             raise AssertionError(f"Unreachable: {tag}")
         return self.objects.record_reference(result), result
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 2fc8532..667144d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -366,7 +366,8 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value, tag=None)
+            # The string nested in a String object has its own tag
+            self.write_string_utf8(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
-- 
2.43.0


From 6a1668610f2d64a4d63d938ffeb03d5862499e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 06/65] fix: bounds-check resizable ArrayBuffer data after its
 max_byte_length

The available data was compared with the byte length before reading the max
byte length, so a truncated buffer raised IndexError.
---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 12f2607..64b766b 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -753,11 +753,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From ccb7cbedf516d11bc05fecb9d0b07604259feb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 07/65] fix: report an invalid error tag at the end of the data
 as a decode error

Formatting the message indexed past the end of the data and raised
IndexError instead.
---
 src/v8serialize/decode.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 64b766b..66d9ddc 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -432,8 +432,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
-            f"(not a valid error tag)"
+            f"Expected an error tag but found {code} (not a valid error tag)"
         )
 
     @overload
-- 
2.43.0


From e4f34dacf27220f4a359d8753b8b6ca1837bf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 08/65] fix: report invalid RegExp flags as a decode error

The ValueError for mutually-exclusive flags escaped from loads().
---
 src/v8serialize/decode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 66d9ddc..6d275b9 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -422,8 +422,11 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        raw_flags = self.read_varint()
+        try:
+            result = JSRegExp(source, JSRegExpFlag(raw_flags))
+        except ValueError as e:
+            self.throw(f"RegExp flags are not valid: {raw_flags:#x}", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
-- 
2.43.0


From 310516566ef51556eb23d5dffe4af817d21fdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 09/65] fix: report dates Python or JavaScript cannot represent
 with library errors

loads() of an invalid or out-of-range Date and dumps() of a datetime without
a timestamp leaked ValueError and OverflowError.
---
 src/v8serialize/decode.py | 7 ++++++-
 src/v8serialize/encode.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 6d275b9..55ef58a 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -534,7 +534,12 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        except (ValueError, OverflowError, OSError) as e:
+            self.throw(
+                f"Date is not representable as a Python datetime: {epoch_ms=}", cause=e
+            )
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 667144d..32d19fa 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -427,7 +427,12 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        epoch_ms = value.timestamp() * 1000
+        try:
+            epoch_ms = value.timestamp() * 1000
+        except (ValueError, OverflowError, OSError) as e:
+            raise EncodeV8SerializeError(
+                f"datetime is not representable as a JavaScript Date: {value!r}"
+            ) from e
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From bcd4ab141ca22d04eb544afa511e3dac9dccfc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 10/65] fix: report invalid ArrayBufferViews as decode errors

loads() raised the buffer types' own errors for views that don't fit their
buffer, rather than DecodeV8SerializeError.
---
 src/v8serialize/decode.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 55ef58a..c0b7a65 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -830,14 +830,21 @@ class ReadableTagStream:
         if self.version >= 14:  # flags field was added in v14
             flags = ArrayBufferViewFlags(self.read_varint())
 
-        result = array_buffer_view(
-            buffer=backing_buffer,
-            format=ArrayBufferViewTag(raw_view_tag),
-            byte_offset=byte_offset,
-            byte_length=(
-                None if ArrayBufferViewFlags.IsLengthTracking in flags else byte_length
-            ),
-        )
+        try:
+            result = array_buffer_view(
+                buffer=backing_buffer,
+                format=ArrayBufferViewTag(raw_view_tag),
+                byte_offset=byte_offset,
+                byte_length=(
+                    None
+                    if ArrayBufferViewFlags.IsLengthTracking in flags
+                    else byte_length
+                ),
+            )
+        except DecodeV8SerializeError:
+            raise
+        except V8SerializeError as e:
+            self.throw("ArrayBufferView is not valid for its ArrayBuffer", cause=e)
         self.objects.record_reference(result)
         return result
 
-- 
2.43.0


From 6ca86ff8a6b721ca88c681221be22f07eb3a30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 11/65] fix: reject sparse arrays with a length JavaScript
 arrays can't have

Lengths above 2**32 - 1 were accepted and produced an array of length 0.
---
 src/v8serialize/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index c0b7a65..9e1890c 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -665,7 +665,7 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kBeginSparseJSArray)
         self.objects.record_reference(identity)
-        expected_array_length = self.read_varint()
+        expected_array_length = self.read_uint32()
 
         def read_items() -> Generator[tuple[int | float | str, object], None, int]:
             actual_properties_count = yield from self._read_js_object_properties(
-- 
2.43.0


From 478d5552d3dac4edb8549688331a5257d1252415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 12/65] fix: support strings containing unpaired surrogates

JavaScript strings are sequences of UTF-16 code units, so V8 can write
unpaired surrogates in TwoByteStrings. Reading them failed, and writing them
leaked UnicodeEncodeError.
---
 src/v8serialize/decode.py |  4 +++-
 src/v8serialize/encode.py | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e1890c..4477ce0 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -337,7 +337,9 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kTwoByteString)
         length = self.read_varint()
         try:
-            value = codecs.decode(self.read_bytes(length), "utf-16-le")
+            value = codecs.decode(
+                self.read_bytes(length), "utf-16-le", "surrogatepass"
+            )
         except UnicodeDecodeError as e:
             self.pos -= length
             self.throw("TwoByteString is not valid UTF-16 data", cause=e)
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 32d19fa..ee92165 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -282,7 +282,8 @@ class WritableTagStream:
             Literal[SerializationTag.kTwoByteString] | None
         ) = SerializationTag.kTwoByteString,
     ) -> None:
-        encoded = value.encode("utf-16-le")
+        # JavaScript strings can contain surrogates that aren't part of a pair
+        encoded = value.encode("utf-16-le", "surrogatepass")
         tag_pos = self.pos
         self.write_tag(tag)
         self.write_varint(len(encoded))
@@ -310,6 +311,13 @@ class WritableTagStream:
         self.write_varint(len(encoded))
         self.data.extend(encoded)
 
+    def write_string(self, value: str) -> None:
+        """Encode a string using a representation able to hold its characters."""
+        try:
+            self.write_string_utf8(value)
+        except UnicodeEncodeError:  # unpaired surrogates are not valid in UTF-8
+            self.write_string_twobyte(value)
+
     def write_bigint(
         self,
         value: int,
@@ -367,7 +375,7 @@ class WritableTagStream:
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
             # The string nested in a String object has its own tag
-            self.write_string_utf8(value)
+            self.write_string(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
@@ -390,7 +398,7 @@ class WritableTagStream:
         self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
-        self.write_string_utf8(regexp.source)
+        self.write_string(regexp.source)
         self.write_varint(regexp.flags.canonical)
 
     def write_js_error(
@@ -404,11 +412,11 @@ class WritableTagStream:
         error_message = error.message
         if error_message is not None:
             self.write_varint(SerializationErrorTag.Message)
-            self.write_string_utf8(error_message)
+            self.write_string(error_message)
         stack = error.stack
         if stack is not None:
             self.write_varint(SerializationErrorTag.Stack)
-            self.write_string_utf8(stack)
+            self.write_string(stack)
         cause = error.cause
         if cause is None:
             self.objects.record_reference(identity)
@@ -932,7 +940,7 @@ class TagWriter(EncodeStepObject):
     def serialize_str(
         self, value: str, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_string_utf8(value)
+        ctx.stream.write_string(value)
 
     @encode.register(float)
     def serialize_float(
-- 
2.43.0


From 4e3443e456a599d10fe705d0838e7bb348d60b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 13/65] fix: don't allow constants to be written as object keys

write_constant() replaced the constraint on object keys with its own, so
None, True, JSUndefined etc were written as keys, which can't be read back.
---
 src/v8serialize/encode.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index ee92165..510ada3 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -238,8 +238,13 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(
+                f"Attempted to write tag {constant.name} in a context where "
+                f"allowed tags are {JS_CONSTANT_TAGS}"
+            )
+        # This may itself be constrained, e.g. constants can't be object keys
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From b199373874c2daf9a261b6bba0afc33a7485dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 14/65] fix: don't merge equal values that serialize
 differently

Deduplication used Python equality, so with the default encode steps 0.0 and
-0.0 and tuples/frozensets such as (1,), (True,) and (1.0,) were replaced by
whichever was seen first.
---
 src/v8serialize/encode.py | 49 +++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 510ada3..2cccde9 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 import re
 import struct
 from collections import abc
@@ -818,6 +819,46 @@ See Also
 """
 
 
+def _is_interchangeable(a: object, b: object) -> bool:
+    """Check if two values are equal and also have the same serialized form.
+
+    Python's equality is not enough, because values of different types (1, 1.0
+    and True), signed zeros and containers of these can be equal.
+    """
+    if a is b:
+        return True
+    if type(a) is not type(b) or a != b:
+        return False
+    if isinstance(a, float):
+        return math.copysign(1, a) == math.copysign(1, cast(float, b))
+    if isinstance(a, tuple):
+        return all(map(_is_interchangeable, a, cast("tuple[object, ...]", b)))
+    if isinstance(a, frozenset):
+        return {_DeduplicationKey(x) for x in a} == {
+            _DeduplicationKey(x) for x in cast("frozenset[object]", b)
+        }
+    if isinstance(a, JSPrimitiveObject):
+        return _is_interchangeable(a.value, cast(JSPrimitiveObject, b).value)
+    if isinstance(a, datetime):
+        return a.fold == cast(datetime, b).fold
+    return True
+
+
+class _DeduplicationKey:
+    __slots__ = ("value",)
+
+    def __init__(self, value: object) -> None:
+        self.value = value
+
+    def __hash__(self) -> int:
+        return hash(self.value)
+
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, _DeduplicationKey):
+            return NotImplemented
+        return _is_interchangeable(self.value, other.value)
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -837,9 +878,7 @@ class DefaultEncodeContext(EncodeContext):
         )
         self.stream = WritableTagStream() if stream is None else stream
 
-        self._memoized = lru_cache(maxsize=deduplicate_max_size, typed=True)(
-            lambda x: x
-        )
+        self._memoized = lru_cache(maxsize=deduplicate_max_size)(lambda key: key.value)
 
     def __encode_object_with_step(self, value: object, *, i: int) -> None:
         if i < len(self.encode_steps):
@@ -868,7 +907,9 @@ class DefaultEncodeContext(EncodeContext):
     def deduplicate(self, value: T) -> T:
         if getattr(value, "__hash__", None) is not None:
             try:
-                return self._memoized(value)  # type: ignore[no-any-return]
+                return self._memoized(  # type: ignore[no-any-return]
+                    _DeduplicationKey(value)
+                )
             except Exception:  # when an object nested in value is not hashable
                 pass
         return value
-- 
2.43.0


From 64d063052c5048f2ccaf72396cd68477f0148b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 15/65] fix: don't flag views as resizable when their buffer
 isn't written resizable

The resizable and length-tracking flags of views were written even when the
buffer itself was written with a fixed length. V8 rejects such data.
---
 src/v8serialize/encode.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 2cccde9..0954aac 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -700,10 +700,16 @@ class WritableTagStream:
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+        # V8 requires that the flags match the serialized buffer, which is only
+        # resizable when the feature to write resizable buffers is enabled, and
+        # never when a view's buffer is a Python bytearray.
+        if SerializationFeature.ResizableArrayBuffers in self.features and not (
+            isinstance(getattr(buffer_view, "backing_buffer", None), bytearray)
+        ):
+            if buffer_view.is_backing_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From add7aa55ff1d5c3b1d0c5f82545da37c826998b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 16/65] fix: report the first V8 version of an Encoder without
 features

Encoder().first_v8_version raised ValueError for an empty feature set.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 0954aac..e01286b 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1258,7 +1258,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            (f.first_v8_version for f in self.features),
+            default=SerializationFeature.MaxCompatibility.first_v8_version,
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From 7d19a71f75b2dcf5f15706096c93be853b145667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 17/65] fix: serialize errors named URIError as URIError

The name JavaScript uses wasn't recognised, so such errors became Error.
---
 src/v8serialize/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index 6f9da36..6b52222 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -420,6 +420,8 @@ class JSErrorName(StrEnum):
             The `JSErrorName` enum member equal to `error_name`, or
             `JSErrorName.Error` if none match.
         """
+        if error_name == "URIError":  # JavaScript's capitalisation differs to ours
+            return JSErrorName.UriError
         return (
             JSErrorName(error_name) if error_name in JSErrorName else JSErrorName.Error
         )
-- 
2.43.0


From 31f2d77555f3d04d7915fe743115d0e7b2ccd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 18/65] fix: raise EncodeV8SerializeError for values out of
 range of their encoding

Some write methods raised a plain ValueError, although dumps() documents
EncodeV8SerializeError as the parent of data-specific errors, and buffer ids
too large to be read back were written.
---
 src/v8serialize/encode.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index e01286b..c1f5f0c 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -226,7 +226,7 @@ class WritableTagStream:
 
     def write_varint(self, n: int) -> None:
         if n < 0:
-            raise ValueError(f"varint must be non-negative: {n}")
+            raise EncodeV8SerializeError(f"varint must be non-negative: {n}")
         while True:
             uint7 = n & 0b1111111
             n >>= 7
@@ -273,7 +273,7 @@ class WritableTagStream:
         try:
             encoded = value.encode("latin1")
         except UnicodeEncodeError as e:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 "Attempted to encode non-latin1 string in OneByte representation"
             ) from e
         self.write_tag(tag)
@@ -332,7 +332,7 @@ class WritableTagStream:
     ) -> None:
         byte_length = (value.bit_length() + 8) // 8  # round up
         if byte_length.bit_length() > 30:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as JavaScript BigInt: "
                 f"30 bits are available to represent the byte length, but this "
                 f"int needs {byte_length.bit_length()}"
@@ -350,7 +350,7 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
         if value not in INT32_RANGE:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Int32: value must be "
                 f"in {INT32_RANGE}"
             )
@@ -364,7 +364,7 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
         if value not in UINT32_RANGE:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Uint32: value must be "
                 f"in {UINT32_RANGE}"
             )
@@ -576,7 +576,7 @@ class WritableTagStream:
         identity: object | None = None,
     ) -> None:
         if not (0 <= length <= MAX_ARRAY_LENGTH):
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"length must be >= 0 and <= ${MAX_ARRAY_LENGTH_REPR}: {length=}"
             )
         self.objects.record_reference(items if identity is None else identity)
@@ -652,7 +652,7 @@ class WritableTagStream:
         assert buffer.resizable
         with memoryview(buffer.data) as buffer_data:
             if buffer.max_byte_length < len(buffer_data):
-                raise ValueError(
+                raise EncodeV8SerializeError(
                     f"max_byte_length must be >= len(data): "
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
@@ -666,19 +666,23 @@ class WritableTagStream:
         self, buffer: AnySharedArrayBuffer, *, identity: object | None = None
     ) -> None:
         if buffer.buffer_id < 0:
-            raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
+            raise EncodeV8SerializeError(
+                f"buffer_id cannot be negative: {buffer.buffer_id=}"
+            )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
-        self.write_varint(buffer.buffer_id)
+        self.write_uint32(buffer.buffer_id, tag=None)
 
     def _write_js_array_buffer_transfer(
         self, buffer: AnyArrayBufferTransfer, *, identity: object | None = None
     ) -> None:
         if buffer.transfer_id < 0:
-            raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
+            raise EncodeV8SerializeError(
+                f"transfer_id cannot be negative: {buffer.transfer_id=}"
+            )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
-        self.write_varint(buffer.transfer_id)
+        self.write_uint32(buffer.transfer_id, tag=None)
 
     def write_js_array_buffer_view(
         self, buffer_view: AnyArrayBufferView, *, identity: object | None = None
-- 
2.43.0


From d2426cccffd413b2fb587932eec12c2a3fa9c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 19/65] fix: report bytes patterns that aren't UTF-8 as
 unrepresentable RegExps

dumps() of such a pattern leaked UnicodeDecodeError.
---
 src/v8serialize/jstypes/jsregexp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index d83941f..d784e60 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -69,7 +69,15 @@ JavaScript/Reference/Global_Objects/RegExp
         no equivalent JavaScript flag.
         """
         if isinstance(pattern.pattern, bytes):
-            source = pattern.pattern.decode()
+            try:
+                source = pattern.pattern.decode()
+            except UnicodeDecodeError as e:
+                if throw:
+                    raise JSRegExpV8SerializeError(
+                        "Python bytes re.Pattern cannot be represented by "
+                        "JavaScript RegExp: pattern is not valid UTF-8"
+                    ) from e
+                return None
         else:
             source = pattern.pattern
         try:
-- 
2.43.0


From c0ecc25469d13aeb64110b0bc270cdc2899bd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 20/65] fix: allow very long digit strings as property keys

Python refuses to convert strings of more than 4300 digits to int, so these
property names raised ValueError.
---
 src/v8serialize/jstypes/_normalise_property_key.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..4b3d125 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -53,6 +53,10 @@ def normalise_property_key(key: str | int | float) -> str | int:
     This reflects the behaviour defined in: https://tc39.es/ecma262/#integer-index
     """
     if isinstance(key, str):
+        # Strings too long to be an array index are never changed. (And Python
+        # can refuse to parse very long int strings.)
+        if len(key) > len(str(MAX_ARRAY_LENGTH)):
+            return key
         int_value = canonical_numeric_index_string(key)
         if int_value is None:
             return key
-- 
2.43.0


From d8222e30914592d38c68d01d651d99839b341ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 21/65] fix: allow assigning to sparse arrays after inserting
 into them

Inserting or deleting items can leave the sorted keys unset with at most one
item, in which case assigning an item failed an assertion.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..3918064 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -526,11 +526,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
 
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -546,9 +542,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
-- 
2.43.0


From 427ab5ac1b61ebdeda216ddeb7e8729946170e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 22/65] fix: make sparse arrays append holes and insert at the
 end like dense arrays

Appending a hole did not increase the length, and inserting at the end raised
IndexError, so the two implementations of arrays behaved differently.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 3918064..902dd1f 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -573,7 +573,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # As with list, inserting beyond the end is the same as appending
+        i = len(self) if i >= len(self) else self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
@@ -591,13 +592,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From daf1143dd920667ec1b77e7bdee906ba6f29b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 23/65] fix: keep trailing holes when creating sparse arrays
 from iterators

---
 src/v8serialize/jstypes/jsarrayproperties.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 902dd1f..60b7b6e 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,10 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            # holes aren't stored, so entries don't reflect holes at the end
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
-- 
2.43.0


From fbbf7f1a44b34f73acbc4be73b305ae489b5893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 24/65] fix: raise KeyError for the element at the length of an
 array

The elements view's bounds check was off by one, so it raised IndexError, and
get() and in failed instead of reporting a missing element.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 60b7b6e..fee9628 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -657,7 +657,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From 070194240bd03c5cc3adfd26f983e6816d384d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 25/65] fix: don't treat any two objects being compared as
 equal to each other

When == met two objects that both had comparisons in progress, it assumed they
were equal, even if they were being compared with other objects. So cyclic
objects with different structures were equal.
---
 src/v8serialize/_recursive_eq.py | 53 ++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..a0db835 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -1,10 +1,19 @@
 from __future__ import annotations
 
-from _thread import get_ident
+import threading
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+
+class _RunningEq(threading.local):
+    """The pairs of objects whose `__eq__` is running in the current thread."""
+
+    def __init__(self) -> None:
+        self.other_by_self: dict[int, int] = {}
+        self.self_by_other: dict[int, int] = {}
+
+
+_RUNNING_EQ: Final = _RunningEq()
 
 _T = TypeVar("_T")
 
@@ -38,34 +47,38 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         if self is other:
             return True
 
-        # Keys are different across threads so that concurrent eq calls are
+        # State is different across threads so that concurrent eq calls are
         # independent.
-        thread_id = get_ident()
-        self_key = id(self), thread_id
-        other_key = id(other), thread_id
-        self_running = self_key in _RUNNING_EQ_KEYS
-        other_running = other_key in _RUNNING_EQ_KEYS
-
-        # If either side already has __eq__ running in the call stack, we must
-        # stop recursing, otherwise we'll infinitely loop.
-        if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
-            # different structure referencing this point.
-            return self_running and other_running
+        other_by_self = _RUNNING_EQ.other_by_self
+        self_by_other = _RUNNING_EQ.self_by_other
+        self_id = id(self)
+        other_id = id(other)
+
+        # If this pair already has __eq__ running in the call stack (in either
+        # order), we must stop recursing, otherwise we'll infinitely loop. The
+        # pair is equal unless the running __eq__ finds some other difference.
+        if (
+            other_by_self.get(self_id) == other_id
+            or other_by_self.get(other_id) == self_id
+        ):
+            return True
+        # If one side is already being compared with some other object, we can't
+        # be equal, as there's a different structure referencing this point.
+        if self_id in other_by_self or other_id in self_by_other:
+            return False
 
         # Register these objects as running so that we won't descend into them
         # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
+        other_by_self[self_id] = other_id
+        self_by_other[other_id] = self_id
 
         # Allow the type to do its own equality check as normal, descending into
         # children if required.
         try:
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            del other_by_self[self_id]
+            del self_by_other[other_id]
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From aedd67f7e625115556f19d80e1761f8110de5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 26/65] fix: don't compare the array length of JSObjects

Objects don't have a length, but two with the same properties weren't equal
if one had an index property deleted, and didn't equal their own round trip.
---
 src/v8serialize/jstypes/jsarray.py  | 5 +++++
 src/v8serialize/jstypes/jsobject.py | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarray.py b/src/v8serialize/jstypes/jsarray.py
index 27f7a96..acf42ff 100644
--- a/src/v8serialize/jstypes/jsarray.py
+++ b/src/v8serialize/jstypes/jsarray.py
@@ -183,5 +183,10 @@ JavaScript/Reference/Global_Objects/Array
             self.array.extend(properties)
         self.update(kwarg_properties)
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, JSArray) and len(self.array) != len(other.array):
+            return False
+        return super(JSArray, self).__eq__(other)
+
     def __repr__(self) -> str:
         return _repr.js_repr(self)
diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index fef44f8..4cf8c06 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -245,7 +245,12 @@ JavaScript/Reference/Global_Objects/Array
             return NotImplemented
         if len(self) != len(other):
             return False
-        return (self.array, self._properties) == (other.array, other._properties)
+        # Unlike arrays, objects don't have a length, so it doesn't matter if their
+        # array properties differ by holes at the end (from deleted properties).
+        return (dict(self.array.elements()), self._properties) == (
+            dict(other.array.elements()),
+            other._properties,
+        )
 
     if TYPE_CHECKING:
         # Our Mapping key type is str | int. MyPy doesn't allow calling methods
-- 
2.43.0


From 1ba835a08c15d2512695ef515e9dc80128ea2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 27/65] fix: show the value of readonly in the repr of buffer
 views

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..90f9e83 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -636,7 +636,7 @@ the itemsize when the view does not have an explicit byte_length"""
             f"{self.backing_buffer!r}",
             None if self.item_offset == 0 else f"item_offset={self.item_offset!r}",
             None if self.item_length is None else f"item_length={self.item_length!r}",
-            None if self.readonly is None else f"readonly={self.item_length!r}",
+            None if self.readonly is None else f"readonly={self.readonly!r}",
         ]
         args = ", ".join(a for a in arg_pieces if a)
         return f"{type(self).__name__}({args})"
-- 
2.43.0


From 3137a4339e39ac22817f0d37bd28c2e9fdda5c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 28/65] fix: show that resizable buffers are resizable in their
 repr

The repr of a resizable JSArrayBuffer at its maximum length was the same as a
fixed-length buffer's.
---
 src/v8serialize/jstypes/_repr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..cd75ad0 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -322,7 +322,9 @@ class JSRepr(RecursiveReprMixin, Repr):
         obj_data_repr: str
         try:
             with memoryview(obj_data) as mv:
-                needs_max_byte_length = mv.nbytes != obj.max_byte_length
+                needs_max_byte_length = (
+                    obj.resizable or mv.nbytes != obj.max_byte_length
+                )
                 needs_readonly = mv.readonly
                 # bytearray() can be repr'd as bytes because the constructor
                 # copies bytes to a bytearray by default.
-- 
2.43.0


From ce870473294a20dcb296e0a21f0c1e0c38d302b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 29/65] fix: don't use Python keywords as keyword arguments in
 reprs

---
 src/v8serialize/jstypes/_repr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index cd75ad0..e91fc8c 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -6,6 +6,7 @@ from _thread import get_ident
 from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
+from keyword import iskeyword
 from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
 
@@ -157,7 +158,8 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= obj.array.elements_used
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            isinstance(k, str) and k.isidentifier() and not iskeyword(k)
+            for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -216,7 +218,8 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= len(obj.array)
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            isinstance(k, str) and k.isidentifier() and not iskeyword(k)
+            for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
-- 
2.43.0


From 785fd1a31f554287fc02bc2e66d83af596474c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 30/65] fix: include the length of arrays ending with holes in
 their repr

JSArrays containing only holes were shown as JSArray(), and sparse arrays
ending with a hole as if they ended with their last element.
---
 src/v8serialize/jstypes/_repr.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index e91fc8c..b34a38a 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -5,13 +5,13 @@ import warnings
 from _thread import get_ident
 from collections.abc import Collection, Iterable
 from contextlib import contextmanager
-from itertools import islice
+from itertools import chain, islice
 from keyword import iskeyword
 from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
 
 from v8serialize.constants import JSErrorName
-from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
+from v8serialize.jstypes.jsarrayproperties import JSHole, SparseArrayProperties
 from v8serialize.jstypes.jsbuffers import JSArrayBuffer
 
 if TYPE_CHECKING:
@@ -137,8 +137,15 @@ class JSRepr(RecursiveReprMixin, Repr):
         level: int,
         type_name: str = "JSObject",
         maxprops: int | None = None,
+        show_length: bool = False,
     ) -> str:
-        if len(obj) == 0:
+        # The length of an array that ends with a hole isn't reflected by its
+        # elements, so we include the final hole as if it were an element.
+        last_hole: list[tuple[int, object]] = []
+        if show_length and len(obj.array) > 0 and obj.array[-1] is JSHole:
+            last_hole.append((len(obj.array) - 1, JSHole))
+
+        if len(obj) == 0 and not last_hole:
             return f"{type_name}()"
 
         if level <= 0:
@@ -148,14 +155,17 @@ class JSRepr(RecursiveReprMixin, Repr):
         repr1 = self.repr1
 
         array_pieces: list[str] = []
-        if obj.array.elements_used > 0:
+        array_piece_count = obj.array.elements_used + len(last_hole)
+        if array_piece_count > 0:
             array_pieces = [
                 f"{i!r}: {repr1(v, level - 1)}"
-                for i, v in islice(obj.array.elements().items(), maxprops)
+                for i, v in islice(
+                    chain(obj.array.elements().items(), last_hole), maxprops
+                )
             ]
-            if obj.array.elements_used > maxprops:
+            if array_piece_count > maxprops:
                 array_pieces.append(self.fillvalue)
-            maxprops -= obj.array.elements_used
+            maxprops -= array_piece_count
 
         all_properties_can_be_kwargs = obj.properties and all(
             isinstance(k, str) and k.isidentifier() and not iskeyword(k)
@@ -194,7 +204,7 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{type_name}({{{props_repr}}})"
 
     def repr_JSArray(self, obj: JSArray, level: int) -> str:
-        if len(obj) == 0:
+        if len(obj) == 0 and len(obj.array) == 0:
             return "JSArray()"
 
         if level <= 0:
@@ -207,7 +217,11 @@ class JSRepr(RecursiveReprMixin, Repr):
             # If the array is sparse it's best to represent it as a dict of
             # index entries, and this is the same as the JSObject repr.
             return self.__repr_JSObject(
-                obj, level, type_name="JSArray", maxprops=maxprops
+                obj,
+                level,
+                type_name="JSArray",
+                maxprops=maxprops,
+                show_length=True,
             )
 
         array_pieces: list[str] = []
-- 
2.43.0


From d481494b590eec1aa088a7c1805798417bb0c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 31/65] fix: treat uncopied JSArrayBuffer data as bytes
 whatever its item size

With copy_data=False, buffers with items larger than a byte were truncated to
their item count in bytes.
---
 src/v8serialize/jstypes/jsbuffers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 90f9e83..ffe6f83 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -155,7 +155,10 @@ Reference/Global_Objects/ArrayBuffer
 
             if copy_data:
                 data = bytes(data) if readonly else bytearray(data)
-            elif readonly and not isinstance(data, bytes):
+            elif not isinstance(data, (bytes, bytearray)):
+                # Buffers can have larger items, but our lengths are in bytes
+                data = get_buffer(data)
+            if readonly and not isinstance(data, bytes):
                 data = memoryview(data).toreadonly()
         else:
             byte_length = byte_length or 0
-- 
2.43.0


From 82498d2cc27b4e0a587e25d4be44d688076bb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 32/65] fix: decode buffers with items larger than a byte as
 bytes

Arrays and memoryviews of other formats were indexed by item, so loads()
failed or misread them.
---
 src/v8serialize/decode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 4477ce0..d2fcc59 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -37,7 +37,6 @@ from v8serialize._pycompat.typing import (
     Buffer,
     ReadableBinary,
     get_buffer,
-    is_readable_binary,
 )
 from v8serialize._references import (
     ForwardReference,
@@ -1538,10 +1537,10 @@ class Decoder:
         :
             The first value in `data`.
         """
+        if not isinstance(data, (bytes, bytearray)):
+            data = get_buffer(data)  # items may not be individual bytes
         ctx = DefaultDecodeContext(
-            stream=ReadableTagStream(
-                data if is_readable_binary(data) else get_buffer(data)
-            ),
+            stream=ReadableTagStream(data),
             decode_steps=self.decode_steps,
         )
         ctx.stream.read_header()
-- 
2.43.0


From aa9b384bafd3c71800f8d173f694b01c602e9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 33/65] fix: write views of any buffer type with an ArrayBuffer

Views backed by buffers other than bytes, bytearray and memoryview (such as
array.array) were written after a regular Array, which can't be decoded.
---
 src/v8serialize/encode.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c1f5f0c..d24ea8c 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -32,6 +32,7 @@ from v8serialize._errors import V8SerializeError
 from v8serialize._pycompat.dataclasses import slots_if310
 from v8serialize._pycompat.exceptions import add_note
 from v8serialize._pycompat.types import NoneType
+from v8serialize._pycompat.typing import get_buffer
 from v8serialize._references import SerializedId, SerializedObjectLog
 from v8serialize._values import (
     AnyArrayBuffer,
@@ -1165,7 +1166,15 @@ class TagWriter(EncodeStepObject):
                     f"{SerializationFeature.Float16Array!r} is not enabled.",
                 )
                 raise e
-        ctx.encode_object(value.backing_buffer)
+        backing_buffer = value.backing_buffer
+        if not isinstance(
+            backing_buffer, (BaseJSArrayBuffer, bytes, bytearray, memoryview)
+        ):
+            # Other buffer types (e.g. array.array) aren't otherwise written as
+            # ArrayBuffers, and a view must follow an ArrayBuffer.
+            with get_buffer(backing_buffer) as data:
+                backing_buffer = JSArrayBuffer(data)
+        ctx.encode_object(backing_buffer)
         ctx.stream.write_js_array_buffer_view(value)
 
 
-- 
2.43.0


From 01ac7de21f4f8fdf4ecc45768a06b97e5d27eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 34/65] fix: recognise a buffer's view after padding

---
 src/v8serialize/decode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index d2fcc59..3d2e1cc 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -191,12 +191,16 @@ class ReadableTagStream:
         Returns
         -------
         :
-            The SerializationTag if the current byte corresponds to one,
-            otherwise None.
+            The SerializationTag if the current byte (ignoring padding)
+            corresponds to one, otherwise None.
         """
-        if self.eof:
+        pos = self.pos
+        # Padding can precede any tag
+        while pos < len(self.data) and self.data[pos] == SerializationTag.kPadding:
+            pos += 1
+        if pos >= len(self.data):
             return None
-        value = self.data[self.pos]
+        value = self.data[pos]
         if value in SerializationTag:
             return SerializationTag(value)
         return None
-- 
2.43.0


From e42f1511ef0dea05b59f1d8947628379e19b582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 35/65] fix: convert dates without losing milliseconds

---
 src/v8serialize/decode.py | 10 +++++++++-
 src/v8serialize/encode.py |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 3d2e1cc..45ec6d1 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -540,7 +540,15 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
         try:
-            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+            # The fraction is handled separately, as seconds + fraction can't
+            # represent all milliseconds exactly as a float.
+            epoch_s, fraction_ms = divmod(epoch_ms, 1000)
+            microsecond = round(fraction_ms * 1000)
+            if microsecond == 1_000_000:
+                epoch_s, microsecond = epoch_s + 1, 0
+            result = datetime.fromtimestamp(epoch_s, tz=tz).replace(
+                microsecond=microsecond
+            )
         except (ValueError, OverflowError, OSError) as e:
             self.throw(
                 f"Date is not representable as a Python datetime: {epoch_ms=}", cause=e
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d24ea8c..d628b8a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -443,7 +443,13 @@ class WritableTagStream:
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
         try:
-            epoch_ms = value.timestamp() * 1000
+            # timestamp() can't represent all milliseconds exactly as a float
+            ms, us = divmod(value.microsecond, 1000)
+            epoch_ms = value.replace(microsecond=0).timestamp() * 1000 + ms
+            # Microseconds can't be represented far from the epoch, don't let
+            # them round up to the next millisecond.
+            if epoch_ms + us / 1000 < epoch_ms + 1:
+                epoch_ms += us / 1000
         except (ValueError, OverflowError, OSError) as e:
             raise EncodeV8SerializeError(
                 f"datetime is not representable as a JavaScript Date: {value!r}"
-- 
2.43.0


From 0d22ed92858425253d355b3c5dc87af2f19d2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 36/65] fix: allow ints too large for a float as JSMap keys and
 in JSSet

---
 src/v8serialize/jstypes/_equality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..4f513f2 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if isinstance(value, float) and isnan(value):
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From 98f166d381dc3415b188d3be15fef6e6d8c8cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 37/65] fix: insert before the start of arrays at the start
 like list

---
 src/v8serialize/jstypes/jsarrayproperties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fee9628..13756ed 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -338,8 +338,7 @@ class DenseArrayProperties(AbstractArrayProperties[T]):
         self._elements_used -= 1
 
     def insert(self, i: int, o: T | JSHoleType) -> None:
-        i = self._normalise_index(i)
-
+        # list clamps out-of-range indexes to the start and end
         self._items.insert(i, o)
 
         if o is not JSHole:
@@ -575,8 +574,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        # As with list, inserting beyond the end is the same as appending
-        i = len(self) if i >= len(self) else self._normalise_index(i)
+        # As with list, inserting beyond the end is the same as appending, and
+        # inserting before the start is the same as inserting at the start
+        i = max(0, len(self) + i) if i < 0 else min(i, len(self))
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
-- 
2.43.0


From c998f42bf6b02e46d0e87c438c6ccee9613c1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 38/65] fix: clear sparse arrays without removing every hole
 one by one

---
 src/v8serialize/jstypes/jsarrayproperties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 13756ed..30875fa 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -88,6 +88,10 @@ else:
 class AbstractArrayProperties(ArrayProperties[T], MutableSequence["T | JSHoleType"]):
     hole_value: ClassVar[JSHoleType] = JSHole
 
+    def clear(self) -> None:
+        # MutableSequence removes elements one by one, including all the holes
+        self.resize(0)
+
     def __eq__(self, other: object) -> bool:
         # TODO: override this per-implementation for better performance by
         #   directly comparing impl data.
-- 
2.43.0


From c52acf855ece6d1bc4908937011868160f1b5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 39/65] fix: allow subclasses of str as JSObject property keys

---
 src/v8serialize/jstypes/jsobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index 4cf8c06..2dcd16d 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -143,7 +143,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __getitem__(self, key: str | int, /) -> T:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             properties = self._properties
             if k in properties:
                 return properties[k]
@@ -159,7 +159,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __setitem__(self, key: str | int | float, value: T, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if value is JSHole:
                 self._properties.pop(k, None)
             else:
@@ -192,7 +192,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __delitem__(self, key: str | int, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if k in self._properties:
                 del self._properties[k]
                 return
-- 
2.43.0


From c821464ba75039a68c1b24b5efeb947604f6621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 40/65] fix: refuse to write arrays with a property named
 length, which V8 cannot read

---
 src/v8serialize/encode.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d628b8a..dd67ed2 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -511,6 +511,8 @@ class WritableTagStream:
     ) -> None:
         count = 0
         for key, value in items:
+            if end_tag is not SerializationTag.kEndJSObject:
+                self._check_js_array_property_key(key)
             with self.constrain_tags(JS_OBJECT_KEY_TAGS):
                 ctx.encode_object(key)
             ctx.encode_object(value)
@@ -566,6 +568,7 @@ class WritableTagStream:
 
         properties_count = 0
         for key, value in [] if properties is None else properties:
+            self._check_js_array_property_key(key)
             with self.constrain_tags(JS_OBJECT_KEY_TAGS):
                 ctx.encode_object(key)
             ctx.encode_object(value)
@@ -594,6 +597,14 @@ class WritableTagStream:
         )
         self.write_varint(length)
 
+    def _check_js_array_property_key(self, key: object) -> None:
+        # Arrays always have their own length property. V8 refuses to read
+        # arrays with a serialized property that already exists.
+        if isinstance(key, str) and key == "length":
+            raise EncodeV8SerializeError(
+                "JavaScript Arrays cannot have a serialized property named 'length'"
+            )
+
     @overload
     def write_object_reference(
         self, *, obj: object, serialized_id: None = None
-- 
2.43.0


From 2baa425bd6211e00494ebba5d61169c498473fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 41/65] fix: accept entries named init and self in JSMap's
 keyword arguments

---
 src/v8serialize/jstypes/jsmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 8348460..aeb4754 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -178,6 +178,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __init__(  # type: ignore[misc]  # mypy doesn't like all the overloads
         self,
         init: SupportsKeysAndGetItem[KT, VT] | Iterable[tuple[KT, VT]] | None = None,
+        /,
         **kwargs: VT,
     ) -> None:
         self.__dict = {}
-- 
2.43.0


From b737001d7d95c49399087f48b56bd4b15b45bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 42/65] fix: compare JSSet members as lists do, so that a NaN
 member equals itself

---
 src/v8serialize/jstypes/jsset.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 611e3ae..14c7d04 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -146,10 +146,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             if len(self) != len(other):
                 return False
             # Two JSSets are equal if they contain equal members in the same order
-            return all(
-                x == y
-                for x, y in zip(self.__members.values(), other.__members.values())
-            )
+            return list(self) == list(other)
         if isinstance(other, AbstractSet):
             if len(self) != len(other):
                 return False
@@ -160,7 +157,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             except Exception:
                 # We have an unhashable member. Fall back to comparing the other
                 # items in order, in the same way as if it were a JSSet
-                return all(x == y for x, y in zip(self.__members.values(), other))
+                return list(self) == list(other)
             return self_as_set == other
         return NotImplemented
 
-- 
2.43.0


From 31e79e60ec565b172d33acb6b0e9fb8def7515c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 43/65] fix: leave a DataView's bytes alone when the value to
 write is refused

---
 src/v8serialize/jstypes/jsbuffers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index ffe6f83..2cf5929 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -940,7 +940,9 @@ data in bulk.
                 byte_length=struct.calcsize(struct_format),
                 buffer_byte_length=len(self.buffer),
             )
-        struct.pack_into(struct_format, buffer, byte_offset, *values)
+        # pack_into() would clear the range before finding that a value is invalid
+        data = struct.pack(struct_format, *values)
+        struct.pack_into(f"{len(data)}s", buffer, byte_offset, data)
 
     def get_bigint64(self, byte_offset: int, little_endian: bool = False) -> int:
         return self.read("<q" if little_endian else ">q", byte_offset)[0]  # type: ignore[no-any-return]
-- 
2.43.0


From b89fa3d51db33c1e1789b95fb67aeea941d21f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 44/65] fix: use the message of SyntaxErrors, not the place
 they occurred, as the error's message

---
 src/v8serialize/jstypes/jserror.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index d995b29..ddfca16 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -123,7 +123,11 @@ def _get_message(tbe: TracebackException) -> str | None:
     # error name via the name property, because it has a fixed set of values.
     # The message property is not displayed by V8 runtimes I've tried, they just
     # show the stack string.
-    return next((ln.rstrip() for ln in tbe.format_exception_only()), None)
+    #
+    # The lines before the message of a SyntaxError are indented, they show the
+    # source code.
+    lines = tbe.format_exception_only()
+    return next((ln.rstrip() for ln in lines if not ln.startswith(" ")), None)
 
 
 @recursive_eq
-- 
2.43.0


From 6e3bc69af6c16ce4f9ed6b36bfc36b944a5d2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 45/65] fix: keep the causes of exceptions that are also
 another's context or in a group

---
 src/v8serialize/jstypes/jserror.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index ddfca16..c8e9b9a 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -73,20 +73,34 @@ class JSErrorData(_JSErrorData, AnyJSError, ABC):
     @classmethod
     def from_exception(cls, exc: BaseException) -> Self:
         """Create `JSErrorData` that reproduces the details of a Python Exception."""
-        return cls.from_traceback_exception(TracebackException.from_exception(exc))
+        # TracebackException leaves out causes which it has also seen as a context
+        # or in a group, so we need to follow the causes ourselves.
+        # TODO: We cut cycles in __cause__, but in principle we can include
+        #   cycles in JSError's cause. Should we?
+        excs: dict[int, BaseException] = {}
+        next_exc: BaseException | None = exc
+        while next_exc is not None and id(next_exc) not in excs:
+            excs[id(next_exc)] = next_exc
+            next_exc = next_exc.__cause__
+
+        *causes, root = reversed(excs.values())
+        cause: Self | None = None
+        for c in causes:
+            cause = cls._from_tbe(TracebackException.from_exception(c), cause)
+        return cls._from_tbe(TracebackException.from_exception(root), cause)
 
     @classmethod
     def from_traceback_exception(cls, tbe: TracebackException) -> Self:
         """Create `JSErrorData` containing details from a `TracebackException`."""
-        message = _get_message(tbe)
-        stack = "".join(format_exception_for_v8(tbe)).rstrip()
-
-        # TODO: TracebackException cuts cycles in __cause__, but in principle we
-        #   can include cycles in JSError's cause. Should we?
         cause = None
         if tbe.__cause__:
             cause = cls.from_traceback_exception(tbe.__cause__)
+        return cls._from_tbe(tbe, cause)
 
+    @classmethod
+    def _from_tbe(cls, tbe: TracebackException, cause: Self | None) -> Self:
+        message = _get_message(tbe)
+        stack = "".join(format_exception_for_v8(tbe)).rstrip()
         return cls(
             # We always use just Error as the name, as Python errors can't
             # really be considered to be equivalent to JS Error types. The
-- 
2.43.0


From 562cea83e1dc456c914435ecfcbfc2bae013f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 46/65] fix: don't render property keys that change as
 identifiers as keyword arguments in reprs

---
 src/v8serialize/jstypes/_repr.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index b34a38a..5ba4b13 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import sys
+import unicodedata
 import warnings
 from _thread import get_ident
 from collections.abc import Collection, Iterable
@@ -168,8 +169,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= array_piece_count
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() and not iskeyword(k)
-            for k in obj.properties
+            map(_can_be_kwarg, obj.properties)
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -232,8 +232,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= len(obj.array)
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() and not iskeyword(k)
-            for k in obj.properties
+            map(_can_be_kwarg, obj.properties)
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -419,6 +418,17 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{repr_[:-1]}…{repr_[-1:]}"
 
 
+def _can_be_kwarg(key: object) -> bool:
+    return (
+        isinstance(key, str)
+        and key.isidentifier()
+        and not iskeyword(key)
+        and key != "__debug__"  # can't be assigned to
+        # Python normalises identifiers, which would change the key
+        and unicodedata.normalize("NFKC", key) == key
+    )
+
+
 def _contains_single_piece(pieces: list[str]) -> bool:
     if len(pieces) != 1:
         return False
-- 
2.43.0


From 6a62ef9eb34e3fdcde6fe5779810837727abb8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 47/65] fix: keep the range of views of shared and transferred
 buffers

---
 src/v8serialize/encode.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index dd67ed2..23d1f70 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -717,9 +717,18 @@ class WritableTagStream:
         self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferView)
         self.write_varint(buffer_view.view_tag.value)
-        self.write_uint32(buffer_view.byte_offset, tag=None)
+        byte_offset, byte_length = buffer_view.byte_offset, buffer_view.byte_length
+        if isinstance(buffer_view, JSArrayBufferView) and isinstance(
+            buffer_view.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        ):
+            # The bytes of these buffers are not available, so their views always
+            # report being out of range.
+            itemsize = buffer_view.data_format.byte_length
+            byte_offset = buffer_view.item_offset * itemsize
+            byte_length = (buffer_view.item_length or 0) * itemsize
+        self.write_uint32(byte_offset, tag=None)
         # 0 / None when flags.IsBufferResizable
-        self.write_uint32(buffer_view.byte_length or 0, tag=None)
+        self.write_uint32(byte_length or 0, tag=None)
 
         flags = ArrayBufferViewFlags(0)
         # V8 requires that the flags match the serialized buffer, which is only
-- 
2.43.0


From 9fd437d18f9f99b2a2a46e8b0b3b734bc9b5f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 48/65] fix: loads() with jsset_type=set raised TypeError

The set was filled with |= from a generator, which only the mutable
set ABC accepts.
---
 src/v8serialize/decode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 45ec6d1..289dc5a 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1312,9 +1312,8 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        for value in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(value)
         return set
 
     def deserialize_js_object(
-- 
2.43.0


From 5c46e3bb19786165aab858d5b129a3a5eda1d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 49/65] fix: views of shared and transferred buffers as Node.js
 host objects

Their bytes aren't available, so they were written as empty host objects
without an error. They now go to the next step.
---
 src/v8serialize/extensions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/extensions.py b/src/v8serialize/extensions.py
index ded420b..5d5d4fc 100644
--- a/src/v8serialize/extensions.py
+++ b/src/v8serialize/extensions.py
@@ -14,7 +14,9 @@ from v8serialize.constants import ArrayBufferViewTag
 from v8serialize.jstypes.jsbuffers import (
     ArrayBufferViewStructFormat,
     JSArrayBuffer,
+    JSArrayBufferTransfer,
     JSDataView,
+    JSSharedArrayBuffer,
     JSTypedArray,
 )
 
@@ -139,9 +141,16 @@ def serialize_js_array_buffer_views_as_nodejs_host_object(
     used to send data to Node.JS (unlike on the deserializing side, where
     `NodeJsArrayBufferViewHostObjectHandler` must be used to read Node.JS's
     custom encoding).
+
+    Views of JSSharedArrayBuffer and JSArrayBufferTransfer are passed to the
+    next step, because the bytes of their buffers are not available.
     """
-    if isinstance(value, (JSDataView, JSTypedArray)) and NodeBufferFormat.supports(
-        value.view_tag
+    if (
+        isinstance(value, (JSDataView, JSTypedArray))
+        and NodeBufferFormat.supports(value.view_tag)
+        and not isinstance(
+            value.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        )
     ):
         ctx.stream.write_host_object(
             value, serializer=_node_js_array_buffer_view_host_object_handler
-- 
2.43.0


From cc64ced0d63a326c3cd4bd525b0ec2c74fde69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 50/65] fix: dates with sub-second UTC offsets were written
 inexactly

timestamp() of these has a fraction even with no microseconds.
---
 src/v8serialize/encode.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 23d1f70..d82add8 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -9,7 +9,7 @@ from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
 from dataclasses import dataclass, field
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 from functools import lru_cache, partial
 from types import TracebackType
 from typing import (
@@ -84,6 +84,8 @@ if TYPE_CHECKING:
 T = TypeVar("T")
 T_con = TypeVar("T_con", contravariant=True)
 
+_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 
 @dataclass(init=False)
 class EncodeV8SerializeError(V8SerializeError, ValueError):
@@ -444,8 +446,14 @@ class WritableTagStream:
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
         try:
             # timestamp() can't represent all milliseconds exactly as a float
-            ms, us = divmod(value.microsecond, 1000)
-            epoch_ms = value.replace(microsecond=0).timestamp() * 1000 + ms
+            if value.utcoffset() is None:
+                epoch_s = value.replace(microsecond=0).timestamp()
+                us_since_epoch = int(epoch_s) * 1_000_000 + value.microsecond
+            else:
+                # UTC offsets can have microseconds too
+                us_since_epoch = (value - _EPOCH) // timedelta(microseconds=1)
+            ms, us = divmod(us_since_epoch, 1000)
+            epoch_ms = float(ms)
             # Microseconds can't be represented far from the epoch, don't let
             # them round up to the next millisecond.
             if epoch_ms + us / 1000 < epoch_ms + 1:
-- 
2.43.0


From b6b406405b2fbfed6f81049f6bae6ec93a7228fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 51/65] fix: dates were read wrongly with sub-second UTC
 offsets

Setting the microseconds replaced those of the offset.
---
 src/v8serialize/decode.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 289dc5a..dc08123 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -8,7 +8,7 @@ import struct
 import sys
 from collections.abc import Iterable, Mapping, MutableMapping, MutableSet, Sequence
 from dataclasses import dataclass, field
-from datetime import datetime, tzinfo
+from datetime import datetime, timezone, tzinfo
 from functools import partial
 from types import MappingProxyType
 from typing import (
@@ -546,9 +546,12 @@ class ReadableTagStream:
             microsecond = round(fraction_ms * 1000)
             if microsecond == 1_000_000:
                 epoch_s, microsecond = epoch_s + 1, 0
-            result = datetime.fromtimestamp(epoch_s, tz=tz).replace(
-                microsecond=microsecond
-            )
+            # UTC offsets can have microseconds too, so set ours before applying tz
+            result = datetime.fromtimestamp(
+                epoch_s, tz=None if tz is None else timezone.utc
+            ).replace(microsecond=microsecond)
+            if tz is not None:
+                result = result.astimezone(tz)
         except (ValueError, OverflowError, OSError) as e:
             self.throw(
                 f"Date is not representable as a Python datetime: {epoch_ms=}", cause=e
-- 
2.43.0


From a7c3810fc4b322c73882667c7efa4b84186ee953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 52/65] fix: as_python_pattern() raised other errors for some
 sources

re.compile() raises ValueError and OverflowError as well as re.error.
---
 src/v8serialize/jstypes/jsregexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index d784e60..9402d85 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -109,7 +109,7 @@ JavaScript/Reference/Global_Objects/RegExp
         # so some patterns still don't work.
         try:
             return compile(self.source, self.flags.as_python_flags())
-        except (JSRegExpV8SerializeError, re.error) as e:
+        except (JSRegExpV8SerializeError, re.error, ValueError, OverflowError) as e:
             if throw:
                 raise JSRegExpV8SerializeError(
                     f"JSRegExp is not a valid Python re.Pattern: {e}"
-- 
2.43.0


From 0c16dd71a905f57bcf48080daa851435a911533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 53/65] fix: naive datetimes with a tzinfo raised TypeError
 when written

A datetime is naive if its tzinfo has no offset, but timestamp() only
accepts naive ones without a tzinfo.
---
 src/v8serialize/encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d82add8..58f39f5 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -447,7 +447,7 @@ class WritableTagStream:
         try:
             # timestamp() can't represent all milliseconds exactly as a float
             if value.utcoffset() is None:
-                epoch_s = value.replace(microsecond=0).timestamp()
+                epoch_s = value.replace(microsecond=0, tzinfo=None).timestamp()
                 us_since_epoch = int(epoch_s) * 1_000_000 + value.microsecond
             else:
                 # UTC offsets can have microseconds too
-- 
2.43.0


From b1d18fbe4fde5554ae1c1f6e6f3223a5c4cbd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 54/65] fix: write_double() left a tag behind when it failed

An int that's too large for a float was noticed after writing the tag.
---
 src/v8serialize/encode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 58f39f5..01c15ca 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -261,8 +261,9 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kDouble] | None = SerializationTag.kDouble,
     ) -> None:
+        encoded = struct.pack("<d", value)  # fails if an int is too large
         self.write_tag(tag)
-        self.data.extend(struct.pack("<d", value))
+        self.data.extend(encoded)
 
     def write_string_onebyte(
         self,
-- 
2.43.0


From f11914dfe9f9f5629c17c301c63699ff553212a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 55/65] fix: growing a sparse array takes constant time

resize() copied every element whenever the length grew, so creating a sparse
object or array with ascending indexes took quadratic time. The proportion of
elements that's retained was also compared with 0.5 twice.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 30875fa..c916c13 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -454,6 +454,10 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
     def resize(self, length: int) -> None:
         if length < 0 or length > MAX_ARRAY_LENGTH:
             raise ValueError(f"length must be >= 0 and < {MAX_ARRAY_LENGTH_REPR}")
+        if length >= len(self):
+            # no elements are removed
+            self._max_index = length - 1
+            return
         items = self._items
         sorted_keys = self._get_sorted_keys()
 
@@ -462,7 +466,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         sorted_keys_after = sorted_keys[:first_removed]
 
         proportion_retained = (
-            1 if len(sorted_keys) == 0 else first_removed / len(sorted_keys) <= 0.5
+            1 if len(sorted_keys) == 0 else first_removed / len(sorted_keys)
         )
         if proportion_retained <= 0.5:
             # copy just the retained elements as there are less kept than removed
-- 
2.43.0


From 9713f6e2d748ee786fd06013a445417dc1de8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 56/65] fix: reading a long varint takes linear time

---
 src/v8serialize/decode.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index dc08123..a0ad625 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -279,6 +279,9 @@ class ReadableTagStream:
         pos = self.pos
         varint = 0
         offset = 0
+        # The complete bytes of a varint larger than 56 bits. Adding all of the
+        # bits to one int would take quadratic time for a long varint.
+        low_bytes = bytearray()
         for pos in range(pos, len(self.data)):  # noqa: B020
             encoded = data[pos]
             uint7 = encoded & 0b1111111
@@ -286,10 +289,16 @@ class ReadableTagStream:
             # The most-significant bit is set except on the final byte
             if encoded == uint7:
                 self.pos = pos + 1
+                if low_bytes:
+                    high_bytes = varint.to_bytes(7, "little")
+                    return int.from_bytes(low_bytes + high_bytes, "little")
                 return varint
             offset += 7
-            if max_bits and offset >= max_bits:
+            if max_bits and len(low_bytes) * 8 + offset >= max_bits:
                 self.throw(f"Varint is larger than {max_bits} bits")
+            if offset == 56:
+                low_bytes += varint.to_bytes(7, "little")
+                varint = offset = 0
         count = pos - self.pos
         self.pos = pos
         self.throw(
-- 
2.43.0


From a3645c4986add213e65fb19b42aa8fb8acc41c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 57/65] fix: huge varints raise DecodeV8SerializeError, not
 ValueError

A count or length of more than 4300 decimal digits made the error that reports
it fail with Python's 'Exceeds the limit for integer string conversion'.
---
 src/v8serialize/decode.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index a0ad625..f2ddc4a 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -118,6 +118,11 @@ else:
     TagT_con = TypeVar("TagT_con", bound=AnySerializationTag, contravariant=True)
 
 
+# V8's own varints are 32 or 64 bits. Python refuses to format ints larger than
+# 4300 digits (about 14k bits), so we can't report errors that contain those.
+_MAX_VARINT_BITS: Final = 8192
+
+
 def _decode_zigzag(n: int) -> int:
     """Convert ZigZag encoded unsigned int to signed.
 
@@ -291,7 +296,9 @@ class ReadableTagStream:
                 self.pos = pos + 1
                 if low_bytes:
                     high_bytes = varint.to_bytes(7, "little")
-                    return int.from_bytes(low_bytes + high_bytes, "little")
+                    varint = int.from_bytes(low_bytes + high_bytes, "little")
+                    if varint.bit_length() > _MAX_VARINT_BITS:
+                        self.throw(f"Varint is larger than {_MAX_VARINT_BITS} bits")
                 return varint
             offset += 7
             if max_bits and len(low_bytes) * 8 + offset >= max_bits:
-- 
2.43.0


From 93ec268c019b41d6efd1e4be2a9fc4e57070d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 58/65] fix: serializing instances of int subclasses searched
 whole integer ranges

---
 src/v8serialize/_values.py                   |  9 +++++++++
 src/v8serialize/encode.py                    | 11 ++++++-----
 src/v8serialize/jstypes/jsprimitiveobject.py |  3 ++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/_values.py b/src/v8serialize/_values.py
index 6defe95..199d28e 100644
--- a/src/v8serialize/_values.py
+++ b/src/v8serialize/_values.py
@@ -22,6 +22,15 @@ SharedArrayBufferId = NewType("SharedArrayBufferId", int)
 TransferId = NewType("TransferId", int)
 
 
+def is_int_in_range(value: object, allowed: range) -> bool:
+    """Check if value is an int between the ends of a range (with step 1).
+
+    `value in allowed` does the same for values of exactly the int type, but for
+    subclasses of int (e.g. `IntEnum`) it searches through the whole range.
+    """
+    return isinstance(value, int) and allowed.start <= value < allowed.stop
+
+
 @runtime_checkable
 class AnyArrayBuffer(Protocol):
     """
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 01c15ca..1c93251 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -40,6 +40,7 @@ from v8serialize._values import (
     AnyArrayBufferView,
     AnyJSError,
     AnySharedArrayBuffer,
+    is_int_in_range,
 )
 from v8serialize.constants import (
     FLOAT64_SAFE_INT_RANGE,
@@ -353,7 +354,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
-        if value not in INT32_RANGE:
+        if not is_int_in_range(value, INT32_RANGE):
             raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Int32: value must be "
                 f"in {INT32_RANGE}"
@@ -367,7 +368,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
-        if value not in UINT32_RANGE:
+        if not is_int_in_range(value, UINT32_RANGE):
             raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Uint32: value must be "
                 f"in {UINT32_RANGE}"
@@ -989,11 +990,11 @@ class TagWriter(EncodeStepObject):
     def serialize_int(
         self, value: int, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        if value in UINT32_RANGE:
+        if is_int_in_range(value, UINT32_RANGE):
             ctx.stream.write_uint32(value)
-        elif value in INT32_RANGE:
+        elif is_int_in_range(value, INT32_RANGE):
             ctx.stream.write_int32(value)
-        elif value in FLOAT64_SAFE_INT_RANGE:
+        elif is_int_in_range(value, FLOAT64_SAFE_INT_RANGE):
             ctx.stream.write_double(value)
         else:
             # Can't use bigints for object keys, so write large ints as strings
diff --git a/src/v8serialize/jstypes/jsprimitiveobject.py b/src/v8serialize/jstypes/jsprimitiveobject.py
index 17ef3d2..6e4bb50 100644
--- a/src/v8serialize/jstypes/jsprimitiveobject.py
+++ b/src/v8serialize/jstypes/jsprimitiveobject.py
@@ -5,6 +5,7 @@ from dataclasses import dataclass
 from typing import TYPE_CHECKING, Generic
 
 from v8serialize._pycompat.dataclasses import slots_if310
+from v8serialize._values import is_int_in_range
 from v8serialize.constants import (
     FLOAT64_SAFE_INT_RANGE,
     PrimitiveObjectTag,
@@ -70,7 +71,7 @@ class JSPrimitiveObject(Generic[T], metaclass=ABCMeta):
         elif isinstance(value, float):
             expected_tag = SerializationTag.kNumberObject
         elif isinstance(value, int):
-            if value in FLOAT64_SAFE_INT_RANGE:
+            if is_int_in_range(value, FLOAT64_SAFE_INT_RANGE):
                 expected_tag = SerializationTag.kNumberObject
                 expected_tag2 = SerializationTag.kBigIntObject
             else:
-- 
2.43.0


From a103a5768242b15d9198db08fe9ffbcf419532fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 59/65] fix: property keys of int and float subclasses used
 their str()

---
 src/v8serialize/encode.py                          | 4 +++-
 src/v8serialize/jstypes/_normalise_property_key.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 1c93251..935fcaa 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -999,7 +999,9 @@ class TagWriter(EncodeStepObject):
         else:
             # Can't use bigints for object keys, so write large ints as strings
             if ctx.stream.allowed_tags is JS_OBJECT_KEY_TAGS:
-                ctx.stream.write_string_onebyte(str(value))  # onebyte always OK for int
+                # int() because subclasses of int (e.g. enums) can have their own str()
+                # onebyte always OK for int
+                ctx.stream.write_string_onebyte(str(int(value)))
             else:
                 ctx.stream.write_bigint(value)
 
diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index 4b3d125..ec6e70e 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -67,5 +67,6 @@ def normalise_property_key(key: str | int | float) -> str | int:
             return int(key)
         # Format out-of-range integer floats without decimal point, as JS does
         # not use them for integer numbers.
-        key = int(key)
-    return str(key)
+        return str(int(key))
+    # float() because subclasses of float can have their own str()
+    return str(float(key))
-- 
2.43.0


From ff9564452bf9d07de77a9d57c0e878607bde060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 60/65] fix: ByteLengthJSArrayBufferError was not a
 JSArrayBufferError

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 2cf5929..ddca264 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -1172,7 +1172,7 @@ class JSArrayBufferError(V8SerializeError):
 
 
 @dataclass(init=False)
-class ByteLengthJSArrayBufferError(V8SerializeError, ValueError):
+class ByteLengthJSArrayBufferError(JSArrayBufferError, ValueError):
     """Raised when a byte length is out of bounds."""
 
     byte_length: int
-- 
2.43.0


From 94ad362559b3084ff18a40b057c79fa7d5b56359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 61/65] fix: KeyErrors of JSMap had an internal value in place
 of the key

---
 src/v8serialize/jstypes/jsmap.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index aeb4754..9168d18 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -191,10 +191,16 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         self.__dict[same_value_zero(key)] = key, value
 
     def __delitem__(self, key: KT, /) -> None:
-        del self.__dict[same_value_zero(key)]
+        try:
+            del self.__dict[same_value_zero(key)]
+        except KeyError:
+            raise KeyError(key) from None
 
     def __getitem__(self, key: KT, /) -> VT:
-        return self.__dict[same_value_zero(key)][1]
+        try:
+            return self.__dict[same_value_zero(key)][1]
+        except KeyError:
+            raise KeyError(key) from None
 
     def __iter__(self) -> Iterator[KT]:
         return map(itemgetter(0), self.__dict.values())
-- 
2.43.0


From 4a5de2e0877965f21633daff679f720470261dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 62/65] fix: equal immutable values that differ were encoded as
 one object

---
 src/v8serialize/encode.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 935fcaa..aa86093 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -878,16 +878,29 @@ def _is_interchangeable(a: object, b: object) -> bool:
         return False
     if isinstance(a, float):
         return math.copysign(1, a) == math.copysign(1, cast(float, b))
-    if isinstance(a, tuple):
-        return all(map(_is_interchangeable, a, cast("tuple[object, ...]", b)))
-    if isinstance(a, frozenset):
-        return {_DeduplicationKey(x) for x in a} == {
-            _DeduplicationKey(x) for x in cast("frozenset[object]", b)
-        }
     if isinstance(a, JSPrimitiveObject):
         return _is_interchangeable(a.value, cast(JSPrimitiveObject, b).value)
+    if isinstance(a, JSArrayBufferView):
+        # Views are equal if they contain equal items, but they can be part of
+        # different buffers.
+        b = cast(JSArrayBufferView, b)
+        return (a.item_offset, a.item_length) == (b.item_offset, b.item_length) and (
+            _is_interchangeable(a.backing_buffer, b.backing_buffer)
+        )
     if isinstance(a, datetime):
         return a.fold == cast(datetime, b).fold
+    if isinstance(a, (str, bytes, memoryview, range)):
+        return True
+    if isinstance(a, abc.Mapping):
+        return _is_interchangeable(
+            tuple(a.items()), tuple(cast("Mapping[object, object]", b).items())
+        )
+    if isinstance(a, frozenset):
+        return {_DeduplicationKey(x) for x in a} == {
+            _DeduplicationKey(x) for x in cast("frozenset[object]", b)
+        }
+    if isinstance(a, abc.Collection):
+        return all(map(_is_interchangeable, a, cast("Collection[object]", b)))
     return True
 
 
-- 
2.43.0


From c27e312d9ac7cc3c028c53878e85934c750b0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 63/65] fix: views of different shared or transferred buffers
 were equal

---
 src/v8serialize/jstypes/jsbuffers.py | 40 +++++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index ddca264..cd6c593 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -546,6 +546,18 @@ the itemsize when the view does not have an explicit byte_length"""
         """Whether this view's entire range exists in the `.backing_buffer`."""
         return self.__get_buffer_as_memoryview()[0]
 
+    @property
+    def _is_inaccessible(self) -> bool:
+        """Whether the contents of `.backing_buffer` are not available in Python."""
+        return isinstance(
+            self.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        )
+
+    @property
+    def _key(self) -> tuple[object, int, int]:
+        """The value that distinguishes this view when its contents cannot."""
+        return self.backing_buffer, self.item_offset, self.item_length or 0
+
     @abstractmethod
     def get_buffer(
         self, *, readonly: Literal[True] | None = None
@@ -614,25 +626,21 @@ the itemsize when the view does not have an explicit byte_length"""
             return True
         if isinstance(value, JSArrayBufferView):
             value = cast("JSArrayBufferView[AnyArrayBufferData, AnyBufferT]", value)
-            try:
-                with (
-                    self.get_buffer(readonly=True) as self_data,
-                    value.get_buffer(readonly=True) as value_data,
-                ):
-                    return self_data == value_data
-            except NotImplementedError:
-                pass
+            if self._is_inaccessible or value._is_inaccessible:
+                return type(self) is type(value) and self._key == value._key
+            with (
+                self.get_buffer(readonly=True) as self_data,
+                value.get_buffer(readonly=True) as value_data,
+            ):
+                return self_data == value_data
         return NotImplemented
 
     def __hash__(self) -> int:
-        try:
-            with self.get_buffer_as_memoryview(readonly=True) as data:
-                # data may not be hashable, depending on backing buffer
-                return hash(data)
-        except NotImplementedError as e:
-            raise TypeError(
-                f"cannot hash {type(self).__name__} with inaccessible buffer"
-            ) from e
+        if self._is_inaccessible:
+            return hash(self._key)
+        with self.get_buffer_as_memoryview(readonly=True) as data:
+            # data may not be hashable, depending on backing buffer
+            return hash(data)
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0


From c6b278162b45288856b5a3fdf0b7b6913e80fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 64/65] fix: equal array buffer views could have different
 hashes

---
 src/v8serialize/jstypes/jsbuffers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index cd6c593..a3cda18 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -7,6 +7,7 @@ from collections.abc import Sized
 from contextlib import AbstractContextManager, contextmanager
 from dataclasses import dataclass, field
 from enum import Enum
+from itertools import chain
 from types import TracebackType
 from typing import (
     TYPE_CHECKING,
@@ -640,7 +641,14 @@ the itemsize when the view does not have an explicit byte_length"""
             return hash(self._key)
         with self.get_buffer_as_memoryview(readonly=True) as data:
             # data may not be hashable, depending on backing buffer
-            return hash(data)
+            hash(data)
+        # Views with different data formats are equal if their items are. The
+        # hash of large views is from a limited number of their items.
+        with self.get_buffer(readonly=True) as buf:
+            items = buf.buffer if isinstance(buf, DataViewBuffer) else buf
+            sample = chain(items[:512], items[512:][-512:])
+            # nan is not equal to itself, and can have any hash
+            return hash((len(items), *(x if x == x else None for x in sample)))
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0


From 30f10d10f9a6531c117b470683dd69ca0acc8033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 65/65] fix: some invalid V8 versions raised AssertionError

---
 src/v8serialize/_versions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/_versions.py b/src/v8serialize/_versions.py
index ea47f08..1ced234 100644
--- a/src/v8serialize/_versions.py
+++ b/src/v8serialize/_versions.py
@@ -36,9 +36,11 @@ def parse_lenient_version(version: str) -> Version:
     # We allow trailing local part starting with a dash. The Python version
     # expects a local part to start with a + and contain anything, but doesn't
     # allow a - suffix. Note that if the default pattern's local part matches,
-    # we must have no suffix, as local will have consumed it all.
+    # we must have no suffix, as local will have consumed it all (unless the
+    # suffix contains characters that aren't valid in a local part).
     lenient_suffix = match.group("suffix")
     if lenient_suffix:
-        assert not match.group("local")
+        if match.group("local"):
+            raise InvalidVersion(version)
         return Version(f"{match.group('version')}+{lenient_suffix}")
     return Version(version)
-- 
2.43.0

