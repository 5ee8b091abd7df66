From 1bbf27e11947f8d74869bc32134bfbec61bef323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 01/25] fix: do not truncate the size when allocating from the
 workspace

heap_alloc() compared (int)size with the space left, so sizes of 2 GB and
more (a negative or very big length given to a repeated alloc function, or
a big packed field) were handed out without the space being there.
---
 lib/src/pbtools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..d364ef6 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -83,7 +83,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
 
     left = (self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if (size <= (size_t)left) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= (size_t)left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From 9444ecac1604b994cbd685a8e367083a00f475cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 02/25] fix: reject packed fixed size fields with a partial
 last item

The first pass counted whole items only, while the second pass also wrote
the partial one, just after the end of the allocated array.
---
 lib/src/pbtools.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index d364ef6..0eb4002 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1300,6 +1300,12 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
+
+        if ((size % 4) != 0) {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+            break;
+        }
+
         self_p->length += (size / 4);
         decoder_seek(decoder_p, size);
         break;
@@ -1328,6 +1334,12 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
+
+        if ((size % 8) != 0) {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+            break;
+        }
+
         self_p->length += (size / 8);
         decoder_seek(decoder_p, size);
         break;
-- 
2.43.0


From a46d8941f666b5594bc89d59e0a5ccc1d2c9cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 03/25] fix: report out of memory when decoding repeated
 messages

The items were silently dropped and the decode succeeded.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 0eb4002..d0d93b6 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2492,6 +2492,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From c500c1cfce4a165726a31161a82ad1515bcce023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 04/25] fix: decode bool as true for any non-zero varint

Varints with only bits above bit 31 set were decoded as false, while they
were decoded as true in a repeated field.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index d0d93b6..9e8992f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1200,7 +1200,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (pbtools_decoder_read_int64(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From d34e9d4672bbf4cbd037219a97be4090226f12b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 05/25] fix: allow the encoded message to fill the encode
 buffer

The first byte of the buffer was never used, so encoding into a buffer of
exactly the encoded size failed, and encoding an empty message into an
empty buffer returned -1.
---
 lib/src/pbtools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 9e8992f..c8ce6c0 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -120,7 +120,7 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
 {
     int length;
 
-    if (self_p->pos >= 0) {
+    if (self_p->size >= 0) {
         length = (self_p->size - self_p->pos - 1);
         memmove(self_p->buf_p,
                 &self_p->buf_p[self_p->pos + 1],
@@ -145,7 +145,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
                           int size)
 {
-    if (self_p->pos >= size) {
+    if ((self_p->pos + 1) >= size) {
         self_p->pos -= size;
         memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
     } else {
-- 
2.43.0


From 7abca6f343b2dedb9b0f8694e7881c775b50aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 06/25] fix: do not take '//' and '/*' in strings for comments

---
 pbtools/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..b793e95 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -65,13 +65,14 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|\\"|")', string)
     ]
 
     comments.sort()
 
     in_single_line_comment = False
     in_multi_line_comment = False
+    in_string = False
     start_offset = 0
     non_comment_offset = 0
     chunks = []
@@ -90,6 +91,11 @@ def ignore_comments(string):
                 offset += 2
                 chunks.append(' ' * (offset - start_offset))
                 non_comment_offset = offset
+        elif in_string:
+            if kind == '"':
+                in_string = False
+        elif kind == '"':
+            in_string = True
         elif kind == '//':
             in_single_line_comment = True
             start_offset = offset
-- 
2.43.0


From 22196b03d31d4ee8906c7ce6dd66e18f30423099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 07/25] fix: report correct line numbers after multi line
 comments

---
 pbtools/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index b793e95..17c911b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -58,8 +58,9 @@ def format_parse_error(string, offset):
 
 
 def ignore_comments(string):
-    """Ignore comments in given string by replacing them with spaces. This
-    reduces the parsing time by roughly a factor of two.
+    """Ignore comments in given string by replacing them with spaces,
+    keeping all line breaks. This reduces the parsing time by roughly
+    a factor of two.
 
     """
 
@@ -89,7 +90,9 @@ def ignore_comments(string):
             elif kind == '*/':
                 in_multi_line_comment = False
                 offset += 2
-                chunks.append(' ' * (offset - start_offset))
+                chunks.append(re.sub(r'[^\n]',
+                                     ' ',
+                                     string[start_offset:offset]))
                 non_comment_offset = offset
         elif in_string:
             if kind == '"':
-- 
2.43.0


From 79b22238f21b8b81326e0220788cc50f35465d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 08/25] fix: support hexadecimal and octal integers

Hexadecimal integers crashed with a ValueError and octal integers were
read as decimal.
---
 pbtools/parser.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 17c911b..83f3067 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -326,7 +326,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_integer(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -361,7 +361,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_integer(tokens[3]))
 
 
 class Oneof:
@@ -405,7 +405,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_integer(tokens[4]),
                    repeated,
                    optional)
 
@@ -446,7 +446,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
@@ -768,6 +768,20 @@ class Proto:
         return list(reversed(reversed_sorted_messages))
 
 
+def load_integer(value):
+    digits = value.lstrip('-')
+
+    try:
+        if digits[:2] in ['0x', '0X']:
+            return int(value, 16)
+        elif digits[0] == '0':
+            return int(value, 8)
+        else:
+            return int(value)
+    except ValueError:
+        raise Error(f"'{value}' is not an integer.")
+
+
 def load_message_type(tokens):
     return tokens[1]
 
-- 
2.43.0


From a5090131b6dbd50f1761e66e19b5b980fd080c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 09/25] fix: load complete option values

Only the first digit of integers and the first part of dotted names were
loaded.
---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 83f3067..02ee26c 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -314,9 +314,9 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_integer(value)
 
         self.kind = kind
         self.value = value
-- 
2.43.0


From f382c425129359cd30a82037d1e8d89bc8cee65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 10/25] fix: accept empty statements in enums and oneofs

---
 pbtools/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 02ee26c..cc75a66 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -341,7 +341,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -372,7 +373,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
-- 
2.43.0


From b4411588bc373cc91bd73df4ecb5c68a5c0407e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 11/25] fix: accept options in services

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index cc75a66..e2daa68 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -522,7 +522,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 6abe741717970bfcae92fbb5f23bdeb37223a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 12/25] fix: keep the package in rpc types

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index e2daa68..77abb20 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -505,9 +505,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = '.'.join(load_message_type(tokens[4]))
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = '.'.join(load_message_type(tokens[9]))
         self.response_stream = bool(tokens[8])
 
 
-- 
2.43.0


From 749ef5532d32ee83cf2a799fafd10a335c520c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 13/25] fix: keep the package in map value types

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 77abb20..1401e77 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -446,7 +446,7 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
-        value_type = load_message_type(tokens[4])[-1]
+        value_type = tokens[4]
         name = tokens[6]
         field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -454,7 +454,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], value_type, 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
-- 
2.43.0


From 04e48d354a98b578029722ecbb6621a7c999d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 14/25] fix: do not mix up nested types and imported types

A message defined in a message was taken for an enum if an imported file of
the same package had an enum with the same name, and the other way around.
---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 1401e77..4ed7d67 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -715,7 +715,7 @@ class Proto:
 
     def is_field_enum(self, field):
         for imported in self._imports:
-            if field.package == imported.package:
+            if '.'.join(field.namespace) == (imported.package or ''):
                 if field.type in imported.enums:
                     return True
                 elif field.type in imported.messages:
-- 
2.43.0


From fa3202392dbd7318fa08920a7ebc3d362e7064ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 15/25] fix: report undefined types, and find enums by package
 name

Undefined types were not reported in files without package, and not for
types given with the package of the file. Also, enums given with the package
of the file were not found if the package name contained a dot.
---
 pbtools/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 4ed7d67..35a08b2 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -661,6 +661,9 @@ class Proto:
 
     def resolve_field_type(self, field):
         if field.namespace:
+            if field.package == self._package:
+                field.namespace = self.namespace_base()
+
             return
 
         for message in reversed(self.messages_stack):
@@ -727,7 +730,8 @@ class Proto:
                                     self._enums,
                                     self._messages)
 
-            return isinstance(type, Enum)
+            if type is not None:
+                return isinstance(type, Enum)
 
         raise Error(f"'{field.type}' is not defined.")
 
-- 
2.43.0


From 93b3514ea1cf3eaac868a2f7cb34c3576718f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 16/25] fix: look up types with a leading dot from the top

Such types without package could be mixed up with types defined in messages.
---
 pbtools/parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 35a08b2..97171e8 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -279,9 +279,10 @@ class Field:
         self.type = type[-1]
         self.name = name
         self.field_number = field_number
-        self.namespace = type[:-1]
+        self.is_absolute = (type[0] == '.')
+        self.namespace = type[self.is_absolute:-1]
         self.type_kind = None
-        self.package = '.'.join(self.namespace)
+        self.package = '.'.join(self.namespace) or None
 
     @property
     def full_type(self):
@@ -505,9 +506,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = '.'.join(load_message_type(tokens[4]))
+        self.request_type = '.'.join(tokens[4][1])
         self.request_stream = bool(tokens[3])
-        self.response_type = '.'.join(load_message_type(tokens[9]))
+        self.response_type = '.'.join(tokens[9][1])
         self.response_stream = bool(tokens[8])
 
 
@@ -660,7 +661,7 @@ class Proto:
         self.messages_stack.pop()
 
     def resolve_field_type(self, field):
-        if field.namespace:
+        if field.namespace or field.is_absolute:
             if field.package == self._package:
                 field.namespace = self.namespace_base()
 
@@ -789,7 +790,7 @@ def load_integer(value):
 
 
 def load_message_type(tokens):
-    return tokens[1]
+    return tokens[0] + tokens[1]
 
 
 def load_package(tokens):
-- 
2.43.0


From 39f5556bb61e72f8b47d478aa4c8174f6bab8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 17/25] fix: define messages before they are used in repeated
 fields

The order was wrong in some cases, for example if a message was used by two
messages already sorted, giving generated code that did not compile.
---
 pbtools/parser.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 97171e8..3613ff7 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -501,6 +501,18 @@ class Message:
 
         return list(set(used_types))
 
+    def repeated_types(self):
+        """Types whose definitions must be placed before this message.
+
+        """
+
+        repeated_types = [field.full_type for field in self.repeated_fields]
+
+        for message in self.messages:
+            repeated_types += message.repeated_types()
+
+        return repeated_types
+
 
 class Rpc:
 
@@ -772,7 +784,32 @@ class Proto:
 
             reversed_sorted_messages.insert(insert_index, message)
 
-        return list(reversed(reversed_sorted_messages))
+        sorted_messages = []
+
+        for message in reversed(reversed_sorted_messages):
+            self.append_after_repeated(message, messages, [], sorted_messages)
+
+        return sorted_messages
+
+    def append_after_repeated(self, message, messages, users, sorted_messages):
+        """Append given message to the sorted messages, just after all
+        messages it has repeated fields of.
+
+        """
+
+        if message in sorted_messages or message in users:
+            return
+
+        repeated_types = message.repeated_types()
+
+        for used_message in messages:
+            if used_message.full_name in repeated_types:
+                self.append_after_repeated(used_message,
+                                           messages,
+                                           users + [message],
+                                           sorted_messages)
+
+        sorted_messages.append(message)
 
 
 def load_integer(value):
-- 
2.43.0


From 3d7f8a150e9104258d6bc21ee1da8490f243e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 18/25] fix: take sint32 values from the low 32 bits

---
 lib/src/pbtools.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index c8ce6c0..27be7b8 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -222,7 +222,7 @@ static uint32_t sint32_encode(int32_t value)
     return (data);
 }
 
-static int32_t sint32_decode(uint64_t value)
+static int32_t sint32_decode(uint32_t value)
 {
     if (value & 0x1) {
         value >>= 1;
@@ -1079,7 +1079,7 @@ int64_t pbtools_decoder_read_int64(struct pbtools_decoder_t *self_p,
 int32_t pbtools_decoder_read_sint32(struct pbtools_decoder_t *self_p,
                                     int wire_type)
 {
-    return ((int32_t)pbtools_decoder_read_sint64(self_p, wire_type));
+    return (sint32_decode(pbtools_decoder_read_uint32(self_p, wire_type)));
 }
 
 int64_t pbtools_decoder_read_sint64(struct pbtools_decoder_t *self_p,
@@ -1568,7 +1568,7 @@ static void read_repeated_sint32_item(struct pbtools_decoder_t *self_p,
                                       int32_t *items_p,
                                       int index)
 {
-    items_p[index] = sint32_decode(decoder_read_varint(self_p));
+    items_p[index] = sint32_decode((uint32_t)decoder_read_varint(self_p));
 }
 
 
-- 
2.43.0


From 39b41dc70126cd1e5ef3f4c4c25434c2c0048382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 19/25] fix: accept escaped backslashes in strings

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3613ff7..93d7f68 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -66,7 +66,7 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n|\\"|")', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|\\[\\"]|")', string)
     ]
 
     comments.sort()
@@ -153,7 +153,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        r'"(\\[\\"]|[^"])*?"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From 5d77df8aa870648a506dc2a7a3952b197e1da187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 20/25] fix: accept the string "proto3" wherever a string is
 accepted

---
 pbtools/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 93d7f68..19f5974 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -174,12 +174,13 @@ class Parser(textparser.Parser):
 
     def grammar(self):
         ident = choice('IDENT', *self.KEYWORDS)
+        string = choice('STRING', 'PROTO3')
         full_ident = DelimitedList(ident, '.')
         empty_statement = ';'
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
-                          Tag('string', 'STRING'),
+                          Tag('string', string),
                           Tag('integer', 'INT'))
         option_name = Sequence(choice(ident,
                                       Sequence('(', full_ident, ')')),
@@ -192,7 +193,7 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING')
+                           string)
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -225,7 +226,7 @@ class Parser(textparser.Parser):
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
         reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
+                                               DelimitedList(string)))
 
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
-- 
2.43.0


From 1a2da9757c3709418258dcc82210f95e7c4aae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 21/25] fix: require a semicolon after imports and reserved
 fields

---
 pbtools/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 19f5974..e83b4c4 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -193,7 +193,8 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           string)
+                           string,
+                           ';')
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -225,8 +226,10 @@ class Parser(textparser.Parser):
         field_number_range = Sequence('INT',
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
-        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList(string)))
+        reserved = Sequence('reserved',
+                            choice(DelimitedList(field_number_range),
+                                   DelimitedList(string)),
+                            ';')
 
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
-- 
2.43.0


From 789d782a905bbb04196617ff05d11c2f7ea74531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 22/25] fix: never end a string at an escaped quote

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index e83b4c4..c066e71 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -153,7 +153,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\[\\"]|[^"])*?"'),
+            ('STRING',        r'"(\\.|[^"\\])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From bce912b23ac8cbaa962f673efae3f89ba588a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 23/25] fix: reject schemas that end inside a definition

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index c066e71..fd0a242 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -272,7 +272,8 @@ class Parser(textparser.Parser):
                                                package,
                                                option,
                                                top_level_def,
-                                               empty_statement)))
+                                               empty_statement)),
+                         '__EOF__')
 
         return proto
 
-- 
2.43.0


From 663a1658095ada9d88c3f3c3464e23c96b305af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 24/25] fix: define repeated types before they are used in any
 structure

---
 pbtools/c_source/__init__.py | 41 ++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..ff20958 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -105,8 +105,7 @@ MESSAGE_STRUCT_FMT = '''\
 /**
  * Message {message.full_name}.
  */
-{repeated_struct}
-
+{repeated_struct}\
 struct {message.full_name_snake_case}_t {{
     struct pbtools_message_base_t base;
 {members}\
@@ -117,7 +116,7 @@ REPEATED_MESSAGE_STRUCT_FMT = '''\
 struct {message.full_name_snake_case}_repeated_t {{
     int length;
     struct {message.full_name_snake_case}_t *items_p;
-}};\
+}};
 '''
 
 ENUM_FMT = '''\
@@ -816,7 +815,33 @@ class Generator:
         return members
 
     def generate_repeated_struct(self, message):
-        return REPEATED_MESSAGE_STRUCT_FMT.format(message=message)
+        if message.full_name not in self.undefined_repeated_structs:
+            return ''
+
+        del self.undefined_repeated_structs[message.full_name]
+
+        return REPEATED_MESSAGE_STRUCT_FMT.format(message=message) + '\n'
+
+    def generate_used_repeated_structs(self, message):
+        """Repeated structs of messages that are defined later, but used by
+        given message.
+
+        """
+
+        structs = []
+
+        for field in message.repeated_fields:
+            if field.full_type == message.full_name:
+                continue
+
+            used_message = self.undefined_repeated_structs.pop(field.full_type,
+                                                               None)
+
+            if used_message is not None:
+                structs.append(
+                    REPEATED_MESSAGE_STRUCT_FMT.format(message=used_message))
+
+        return structs
 
     def generate_enum_members(self, enum):
         lines = []
@@ -880,6 +905,7 @@ class Generator:
         for oneof in message.oneofs:
             types += self.generate_oneof_type(oneof)
 
+        types += self.generate_used_repeated_structs(message)
         types += [
             MESSAGE_STRUCT_FMT.format(
                 message=message,
@@ -889,8 +915,15 @@ class Generator:
 
         return types
 
+    def find_undefined_repeated_structs(self, messages):
+        for message in messages:
+            self.undefined_repeated_structs[message.full_name] = message
+            self.find_undefined_repeated_structs(message.messages)
+
     def generate_types(self):
         types = []
+        self.undefined_repeated_structs = {}
+        self.find_undefined_repeated_structs(self.messages)
 
         for enum in self.parsed.enums:
             types += self.generate_enum_type(enum)
-- 
2.43.0


From 29b96a99573002b01b80b34fa183b4b484b381d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 25/25] fix: include the header of an imported file by the name
 it is generated with

generate_files() names the header after the last part of the path, but
import "dir/foo.proto" included "dir_foo.h".
---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index ff20958..fa40fed 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1328,7 +1328,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0

