From 25b742d1ccc5a654ff3dc73bfd9a7c38139eed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 01/37] fix: pure-python ptr.new_struct/new_list/new_far return
 a signed 64-bit word

With ptrs_size >= 2**15, item_count >= 2**28 or target >= 2**31 the result did
not fit in an int64, so that write_int64 raised struct.error.
---
 capnpy/ptr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index a0d9145..82c13ad 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -80,7 +80,7 @@ def deref(ptr, ofs):
 
 def new_struct(offset, data_size, ptrs_size):
     p = 0
-    p |= ptrs_size << 48
+    p |= as_signed(ptrs_size & 0xffff, 16) << 48
     p |= (data_size << 32 & 0xffff00000000)
     p |= (offset << 2 & 0xfffffffc)
     p |= STRUCT
@@ -118,7 +118,7 @@ def struct_ptrs_size(ptr):
 
 def new_list(ptr_offset, size_tag, item_count):
     p = 0
-    p |= item_count << 35
+    p |= as_signed(item_count & 0x1fffffff, 29) << 35
     p |= (size_tag << 32 & 0x700000000)
     p |= (ptr_offset << 2 & 0xfffffffc)
     p |= LIST
@@ -154,7 +154,7 @@ def list_item_length(size_tag):
 
 def new_far(landing_pad, offset, target):
     p = 0
-    p |= target << 32
+    p |= as_signed(target & 0xffffffff, 32) << 32
     p |= (offset << 3 & 0xfffffff8)
     p |= (landing_pad << 2 & 0x4)
     p |= FAR
-- 
2.43.0


From 93b4702597c0088f326465148120a919661287e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 02/37] fix: ptr.new_generic with a negative offset does not
 clobber the extra bits

---
 capnpy/ptr.h  | 2 +-
 capnpy/ptr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/ptr.h b/capnpy/ptr.h
index 4218476..775dc62 100644
--- a/capnpy/ptr.h
+++ b/capnpy/ptr.h
@@ -29,7 +29,7 @@ enum _PTR_LIST_SIZE {
 #define CAST_AS_SIGNED(x, bits) (((long)x) << (LONGBITS-bits) >> (LONGBITS-bits))
 
 // generic pointer
-#define PTR_NEW_GENERIC(kind, offset, extra) ((extra)<<32 | (offset)<<2 | (kind))
+#define PTR_NEW_GENERIC(kind, offset, extra) ((extra)<<32 | ((offset)<<2 & 0xfffffffc) | (kind))
 #define PTR_KIND(ptr) ((ptr) & 0x3)
 #define PTR_OFFSET(ptr) (CAST_AS_SIGNED((ptr)>>2 & 0x3fffffff, 30))
 #define PTR_EXTRA(ptr) ((ptr)>>32)
diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index 82c13ad..d510866 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -40,7 +40,7 @@ LIST_SIZE_COMPOSITE = 7
 def new_generic(kind, offset, extra):
     p = 0
     p |= extra << 32
-    p |= offset << 2
+    p |= (offset << 2 & 0xfffffffc)
     p |= kind
     return p
 
-- 
2.43.0


From b13ea4631d84f4b4db0c19da8de973c478fa9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 03/37] fix: pure-python packing.pack_into refuses negative
 offsets

struct.pack_into counts them from the end of the buffer; unpack_primitive and
the Cython version raise IndexError.
---
 capnpy/packing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/packing.py b/capnpy/packing.py
index c15d0fb..31e3bc3 100644
--- a/capnpy/packing.py
+++ b/capnpy/packing.py
@@ -47,6 +47,8 @@ def pack_int64(value):
 
 def pack_into(ifmt, buf, offset, value):
     fmt = '<' + mychr(ifmt)
+    if offset < 0 or offset + struct.calcsize(fmt) > len(buf):
+        raise IndexError('Offset out of bounds: %d' % offset)
     try:
         struct.pack_into(fmt, buf, offset, value)
     except struct.error as e:
-- 
2.43.0


From d0fbfde90400c6e718e01ad8589f69eb28eaac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 04/37] fix: explicit default values of Float32 and Float64
 fields

---
 capnpy/compiler/field.py     | 10 ++++++++++
 capnpy/compiler/fieldtree.py |  4 ++++
 capnpy/compiler/request.py   |  3 +++
 capnpy/compiler/structor.py  |  9 ++++++++-
 capnpy/schema_extended.py    | 16 ++++++++++++++++
 capnpy/util.py               | 14 ++++++++++++++
 6 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index e561511..55d5890 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -70,6 +70,16 @@ class Field__Slot:
         ns.typename = '_Types.%s' % self.slot.type.which()
         ns.default_ = self.slot.defaultValue.as_pyobj()
         ns.ifmt = "ord(%r)" % self.slot.get_fmt()
+        if self.slot.has_float_default():
+            # defaults are XORed bitwise: read the bits, XOR and convert
+            ns.float_, ns.default_, ifmt = self.slot.get_float_default()
+            ns.ifmt = "ord(%r)" % ifmt
+            m.def_property(ns, name, """
+                {ensure_union}
+                value = self._read_primitive({offset}, {ifmt})
+                return _{float_}_from_bits(value ^ {default_:#x})
+            """)
+            return
         m.def_property(ns, name, """
             {ensure_union}
             value = self._read_primitive({offset}, {ifmt})
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index ff4c3b9..64bec44 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -1,6 +1,8 @@
 from __future__ import print_function
 from collections import namedtuple
 
+INF = float('inf')
+
 Union = namedtuple('Union', ['varname', 'offset'])
 
 class AbstractNode(object):
@@ -116,6 +118,8 @@ class Node(AbstractNode):
             return '_undefined'
         elif f.is_slot():
             default_val = f.slot.defaultValue.as_pyobj()
+            if default_val != default_val or default_val in (INF, -INF):
+                return "float('%s')" % default_val # nan or inf
             return str(default_val)
         elif f.is_nullable(m):
             ann = f.is_nullable(m)
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 2167290..8ecb329 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -71,6 +71,9 @@ class RequestedFile:
         m.w("from capnpy.util import data_repr as _data_repr")
         m.w("from capnpy.util import float32_repr as _float32_repr")
         m.w("from capnpy.util import float64_repr as _float64_repr")
+        for name in ('float32_from_bits', 'float32_to_bits',
+                     'float64_from_bits', 'float64_to_bits'):
+            m.w("from capnpy.util import {name} as _{name}", name=name)
         m.w("from capnpy.util import extend_module_maybe as _extend_module_maybe")
         m.w("from capnpy.util import check_version as _check_version")
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index fc84d4f..bef77fc 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -187,12 +187,19 @@ class Structor(object):
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
+        ns.offset = self.slot_offset(node.f)
+        if node.f.slot.has_float_default():
+            # defaults are XORed bitwise: convert to bits, XOR and write
+            ns.float_, ns.default_, ifmt = node.f.slot.get_float_default()
+            ns.type = {b'I': 'uint32', b'Q': 'uint64'}[ifmt]
+            ns.w('builder.write_{type}(pos + {offset}, '
+                 '_{float_}_to_bits({arg}) ^ {default_:#x})')
+            return
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
         #
         ns.type = node.f.slot.get_typename()
-        ns.offset = self.slot_offset(node.f)
         ns.w('builder.write_{type}(pos + {offset}, {arg})')
 
     def handle_bool(self, node):
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index f553541..1c4df36 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -1,6 +1,7 @@
 from capnpy.type import Types as _Types
 from capnpy import annotate
 from capnpy.annotate import TextType
+from capnpy.util import float32_to_bits, float64_to_bits
 
 @Type.__extend__
 class Type:
@@ -142,6 +143,21 @@ class Field_slot:
         elif self.type.is_enum():
             return 'h'
 
+    def has_float_default(self):
+        return (self.hadExplicitDefault and
+                (self.type.is_float32() or self.type.is_float64()))
+
+    def get_float_default(self):
+        """
+        Return the name of the type, the default value as an integer and the
+        format of that integer
+        """
+        default_ = self.defaultValue.as_pyobj()
+        if self.type.is_float32():
+            return 'float32', float32_to_bits(default_), b'I'
+        else:
+            return 'float64', float64_to_bits(default_), b'Q'
+
     def get_typename(self):
         if self.type.is_primitive():
             return str(self.type.which())
diff --git a/capnpy/util.py b/capnpy/util.py
index 9969389..d69c4f5 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -1,3 +1,4 @@
+import struct
 import sys
 import py
 import six
@@ -106,6 +107,19 @@ def data_repr(s):
     return u'"%s"' % s[1:-1]
 
 
+def float32_from_bits(bits):
+    return struct.unpack(b'<f', struct.pack(b'<I', bits))[0]
+
+def float32_to_bits(value):
+    return struct.unpack(b'<I', struct.pack(b'<f', value))[0]
+
+def float64_from_bits(bits):
+    return struct.unpack(b'<d', struct.pack(b'<Q', bits))[0]
+
+def float64_to_bits(value):
+    return struct.unpack(b'<Q', struct.pack(b'<d', value))[0]
+
+
 try:
     from capnpy.floatrepr import float32_repr, float64_repr
 except ImportError:
-- 
2.43.0


From c41158eb9490839b2f5e9abb5897c69ed2dbacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 05/37] fix: enum values and union tags are unsigned 16-bit
 numbers

---
 capnpy/compiler/field.py   | 2 +-
 capnpy/compiler/struct_.py | 4 ++--
 capnpy/enum.py             | 5 ++---
 capnpy/list.py             | 2 +-
 capnpy/schema_extended.py  | 4 ++--
 capnpy/struct_.pxd         | 1 +
 capnpy/struct_.py          | 8 +++++++-
 7 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 55d5890..81a52b0 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -107,7 +107,7 @@ class Field__Slot:
         ns.newf = '_new'
         m.def_property(ns, name, """
             {ensure_union}
-            value = self._read_int16({offset})
+            value = self._read_uint16({offset})
             if {default_} != 0:
                 value = (value ^ {default_})
             return {enumcls}.{newf}(value)
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 432003c..48173b4 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -133,7 +133,7 @@ class Node__Struct:
             # are already fast
             ns.ww("""
                 cpdef long __which__(self) except -1:
-                    return self._read_int16({tag_offset})
+                    return self._read_uint16({tag_offset})
                 cpdef which(self):
                     return {compile_name}._new(self.__which__())
             """)
@@ -144,7 +144,7 @@ class Node__Struct:
             ns.i = i
             ns.ww("""
                 def is_{item}(self):
-                    return self._read_int16({tag_offset}) == {i}
+                    return self._read_uint16({tag_offset}) == {i}
             """)
         ns.w()
 
diff --git a/capnpy/enum.py b/capnpy/enum.py
index 894ceb0..819c9fb 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -6,10 +6,9 @@ class BaseEnum(int):
 
     @property
     def name(self):
-        try:
+        if 0 <= self < len(self.__members__):
             return self.__members__[self]
-        except IndexError:
-            return 'unknown<%d>' % self
+        return 'unknown<%d>' % self
 
     def __repr__(self):
         return '<%s.%s: %d>' % (self.__class__.__name__, self.name, self)
diff --git a/capnpy/list.py b/capnpy/list.py
index 84c4702..435c19c 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -261,7 +261,7 @@ class PrimitiveItemType(ItemType):
 class EnumItemType(PrimitiveItemType):
 
     def __init__(self, enumcls):
-        PrimitiveItemType.__init__(self, Types.int16)
+        PrimitiveItemType.__init__(self, Types.uint16)
         self.enumcls = enumcls
 
     def get_type(self):
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index 1c4df36..3ddb862 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -141,7 +141,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'q'
         elif self.type.is_enum():
-            return 'h'
+            return 'H'
 
     def has_float_default(self):
         return (self.hadExplicitDefault and
@@ -164,7 +164,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'int64'
         elif self.type.is_enum():
-            return 'int16'
+            return 'uint16'
 
     def get_size(self):
         # XXX: even more hackish, we need a better way
diff --git a/capnpy/struct_.pxd b/capnpy/struct_.pxd
index d3d7d21..32d6c2e 100644
--- a/capnpy/struct_.pxd
+++ b/capnpy/struct_.pxd
@@ -24,6 +24,7 @@ cdef class Struct(Blob):
     cpdef _init_from_pointer(self, object buf, long offset, long p)
     cpdef _read_primitive(self, long offset, char ifmt)
     cpdef long _read_int16(self, long offset)
+    cpdef long _read_uint16(self, long offset)
     cpdef long _read_fast_ptr(self, long offset)
     cpdef _read_far_ptr(self, long offset)
     cpdef long _as_pointer(self, long offset)
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 82c2d27..63fcf56 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -167,7 +167,7 @@ class Struct(Blob):
     def __which__(self):
         if self.__tag_offset__ is None:
             raise TypeError("Cannot call which() on a non-union type")
-        return self._read_int16(self.__tag_offset__)
+        return self._read_uint16(self.__tag_offset__)
 
     def _as_pointer(self, offset):
         """
@@ -200,6 +200,12 @@ class Struct(Blob):
             return 0
         return self._seg.read_int16(self._data_offset+offset)
 
+    def _read_uint16(self, offset):
+        if offset >= self._data_size*8:
+            # reading bytes beyond _data_size is equivalent to read 0
+            return 0
+        return self._seg.read_uint16(self._data_offset+offset)
+
     def _read_bit(self, offset, bitmask):
         val = self._read_primitive(offset, Types.uint8.ifmt)
         return bool(val & bitmask)
-- 
2.43.0


From 9a70f1436f9e9ef72368a4d05fe2b82846edc7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 06/37] fix: items of lists of primitives and of lists which
 are encoded as lists of structs

The items start after the tag word.
---
 capnpy/list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 435c19c..6ffaeb2 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -243,7 +243,7 @@ class PrimitiveItemType(ItemType):
         return self.t
 
     def read_item(self, lst, i):
-        offset = lst._offset + (i * lst._item_length)
+        offset = self.offset_for_item(lst, i)
         return lst._seg.read_primitive(offset, self.ifmt)
 
     def item_repr(self, item):
@@ -368,7 +368,7 @@ class ListItemType(ItemType):
         return ('list', self.inner_item_type)
 
     def read_item(self, lst, i):
-        offset = lst._offset + (i*8)
+        offset = self.offset_for_item(lst, i)
         p = lst._seg.read_ptr(offset)
         if ptr.kind(p) == ptr.FAR:
             offset, p = lst._seg.read_far_ptr(offset)
-- 
2.43.0


From 46bd3f731a58ad4c9638ef9652210a4f797f6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 07/37] fix: constructors of structs with fields named 'pos' or
 'builder'

These names were also local variables of the generated constructor.
---
 capnpy/compiler/structor.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index bef77fc..6dd606f 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -50,15 +50,15 @@ class Structor(object):
         code.w('@staticmethod')
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
-            ns.cdef_var('_SegmentBuilder', 'builder')
-            ns.cdef_var('long', 'pos')
-            ns.w('builder = _SegmentBuilder()')
-            ns.w('pos = builder.allocate({length})')
+            ns.cdef_var('_SegmentBuilder', '_builder')
+            ns.cdef_var('long', '_pos')
+            ns.w('_builder = _SegmentBuilder()')
+            ns.w('_pos = _builder.allocate({length})')
             for union in self.fieldtree.all_unions():
                 ns.w('{union}__curtag = None', union=union.varname)
             for node in self.fieldtree.children:
                 self.handle_node(node)
-            ns.w('return builder.as_string()')
+            ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
         if node.f.is_part_of_union():
@@ -71,7 +71,7 @@ class Structor(object):
             ns.ifmt  = 'ord(%r)' % Types.int16.fmt
             with ns.block('if {varname} is not _undefined:'):
                 ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_int16({offset}, {tagval})')
+                ns.w('_builder.write_int16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
@@ -149,17 +149,17 @@ class Structor(object):
             self.handle_node(child)
 
     def handle_text_bytes(self, node):
-        self.m.code.w('builder.alloc_text(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_text(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_text_unicode(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.alloc_text(pos + {offset}, _encode_maybe({arg}))')
+        ns.w('_builder.alloc_text(_pos + {offset}, _encode_maybe({arg}))')
 
     def handle_data(self, node):
-        self.m.code.w('builder.alloc_data(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_data(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_struct(self, node):
@@ -173,7 +173,7 @@ class Structor(object):
         ns.fname = node.varname
         ns.offset = self.slot_offset(node.f)
         ns.structname = node.f.slot.type.runtime_name(self.m)
-        ns.w('builder.copy_from_struct(pos + {offset}, {structname}, {fname})')
+        ns.w('_builder.copy_from_struct(_pos + {offset}, {structname}, {fname})')
 
     def handle_list(self, node):
         options = self.m.options(node.f)
@@ -182,7 +182,7 @@ class Structor(object):
         ns.offset = self.slot_offset(node.f)
         t = node.f.slot.type.list.elementType
         ns.list_item_type = t.list_item_type(self.m, options)
-        ns.w('builder.copy_from_list(pos + {offset}, {list_item_type}, {fname})')
+        ns.w('_builder.copy_from_list(_pos + {offset}, {list_item_type}, {fname})')
 
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
@@ -192,7 +192,7 @@ class Structor(object):
             # defaults are XORed bitwise: convert to bits, XOR and write
             ns.float_, ns.default_, ifmt = node.f.slot.get_float_default()
             ns.type = {b'I': 'uint32', b'Q': 'uint64'}[ifmt]
-            ns.w('builder.write_{type}(pos + {offset}, '
+            ns.w('_builder.write_{type}(_pos + {offset}, '
                  '_{float_}_to_bits({arg}) ^ {default_:#x})')
             return
         if node.f.slot.hadExplicitDefault:
@@ -200,7 +200,7 @@ class Structor(object):
             ns.w('{arg} ^= {default_}')
         #
         ns.type = node.f.slot.get_typename()
-        ns.w('builder.write_{type}(pos + {offset}, {arg})')
+        ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_bool(self, node):
         ns = self.m.code.new_scope()
@@ -209,4 +209,4 @@ class Structor(object):
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
-        ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
+        ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
-- 
2.43.0


From e68b93d7180e943c2783d615d828e9cada0bbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 08/37] fix: constructors of structs with a group 'foo' with a
 field 'bar' and a field 'fooBar'

The local variable for the field of the group overwrote the parameter.
---
 capnpy/compiler/structor.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 6dd606f..0e13a30 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -23,6 +23,21 @@ class Structor(object):
         self.ptrs_size = self.struct.pointerCount
         self.fieldtree = FieldTree(m, structnode)
         self.argnames, self.params = self.fieldtree.get_args_and_params()
+        self.rename_clashing_locals()
+
+    def rename_clashing_locals(self):
+        # the fields of a group are unpacked into local variables: make sure
+        # that they don't overwrite a parameter or another variable, e.g. if we
+        # have both a group "foo" with a field "bar" and a field "fooBar"
+        seen = set(self.argnames)
+        for node in self.fieldtree.allnodes():
+            if node.parent is self.fieldtree:
+                continue
+            while node.varname in seen:
+                node.varname += '_'
+            seen.add(node.varname)
+            if node.union:
+                node.union = node.union._replace(varname=node.varname)
 
     def slot_offset(self, f):
         offset = f.slot.offset * f.slot.get_size()
@@ -135,15 +150,17 @@ class Structor(object):
         assert value_node.f.name == b'value' # sanity check
         ns = self.m.code.new_scope()
         ns.fname = node.varname
+        ns.is_null = node.children[0].varname
+        ns.value = value_node.varname
         ns.value_default = value_node.default
         ns.ww(
         """
             if {fname} is None:
-                {fname}_is_null = 1
-                {fname}_value = {value_default}
+                {is_null} = 1
+                {value} = {value_default}
             else:
-                {fname}_is_null = 0
-                {fname}_value = {fname}
+                {is_null} = 0
+                {value} = {fname}
         """)
         for child in node.children:
             self.handle_node(child)
-- 
2.43.0


From 76f94cc6e39e018fccf258afe0715d5fa2968946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 09/37] fix: schemas with an enum without members

The generated code was not valid Python.
---
 capnpy/compiler/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 60bf342..bfe9d3f 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -176,7 +176,7 @@ class ModuleGenerator(object):
         ns = self.code.new_scope()
         ns.name = compile_name
         ns.capnpy_id = capnpy_id
-        ns.members = "(%s,)" % (', '.join(items))
+        ns.members = "(%s)" % ''.join([item + ', ' for item in items])
         ns.prebuilt = [ns.format('{name}({i})', i=i)
                        for i in range(len(items))]
         ns.prebuilt = ', '.join(ns.prebuilt)
-- 
2.43.0


From 726110470c87b0e79e64cd0d533e80120d236636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 10/37] fix: groups with only Void fields

The generated code was not valid Python.
---
 capnpy/compiler/field.py     | 4 ++--
 capnpy/compiler/fieldtree.py | 2 ++
 capnpy/compiler/structor.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 81a52b0..63e73be 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -273,13 +273,13 @@ class Field__Group:
         tree = FieldTree(m, groupnode)
         argnames, params = tree.get_args_and_params()
         #
-        ns.argnames = m.code.args(argnames)
+        ns.argnames = ''.join([argname + ', ' for argname in argnames])
         ns.params = m.code.params(params)
         ns.capitalname = ns.name.capitalize()
         ns.ww("""
             @staticmethod
             def {capitalname}({params}):
-                return {argnames},
+                return ({argnames})
         """)
         ns.w()
 
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index 64bec44..0e0d288 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -133,6 +133,8 @@ class Node(AbstractNode):
         else:
             assert f.is_group()
             items = [child.default for child in self.children]
+            if not items:
+                return '()' # only Void fields
             return '(%s,)' % ', '.join(items)
 
 
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 0e13a30..1eec269 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -130,7 +130,8 @@ class Structor(object):
         ns.group = node.varname
         argnames = [child.varname for child in node.children]
         ns.args = self.m.code.args(argnames)
-        ns.w('{args}, = {group}')
+        if argnames:
+            ns.w('{args}, = {group}')
         #
         # 2. recursively handle all the children
         for child in node.children:
-- 
2.43.0


From 78f5de11c4ee22a6826227e41ddf9d03896656be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 11/37] fix: get_foo() of a text or data member of an union
 which is not selected

Raise ValueError, as foo and get_bar() of the other types do, instead of
returning the contents of another member.
---
 capnpy/compiler/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 63e73be..b62f825 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -121,6 +121,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_bytes({offset}, default_=b"")
         """)
         ns.w()
@@ -134,6 +135,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_unicode({offset}, default_=b"")
         """)
         ns.w()
@@ -147,6 +149,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_data({offset}, default_=b"")
         """)
         ns.w()
-- 
2.43.0


From 97535793c3bd098956aba2a61800a655ee31cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 12/37] fix: dumping an empty struct wrote a null root pointer

---
 capnpy/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index 84ba1b7..6376ee4 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -157,7 +157,11 @@ def dumps(obj, fastpath=True):
         # do not create a temporary SegmentBuilder. The memcpy vs copy_pointer
         # difference seems negligible, for small objects at least.
         start = obj._data_offset
-        p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
+        if obj._data_size + obj._ptrs_size == 0:
+            # "empty" struct: a pointer with offset 0 would be a null pointer
+            p = ptr.new_struct(-1, 0, 0)
+        else:
+            p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
         return obj._seg.dump_message(p, start, end)
     else:
         builder = SegmentBuilder()
-- 
2.43.0


From 729f250b2cd9e0635ab43bcc5b3cbe66701b1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 13/37] fix: lists of structs whose items do not fill the list
 exactly are not compact

---
 capnpy/list.py          | 6 +++++-
 capnpy/segment/endof.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 6ffaeb2..6b87cd3 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -74,7 +74,11 @@ class List(Blob):
         return self._item_type.read_item(self, i)
 
     def _get_end(self):
-        p = ptr.new_list(0, self._size_tag, self._item_count)
+        count = self._item_count
+        if self._size_tag == ptr.LIST_SIZE_COMPOSITE:
+            # the pointer contains the number of words, excluding the tag
+            count *= self._item_length // 8
+        p = ptr.new_list(0, self._size_tag, count)
         return endof(self._seg, p, self._offset-8)
 
     def _get_slice(self):
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 6494cb4..6a3c91e 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -25,10 +25,14 @@ def endof(seg, p, offset):
         item_size = ptr.list_size_tag(p)
         count = ptr.list_item_count(p)
         if item_size == ptr.LIST_SIZE_COMPOSITE:
+            total_words = count # n of words NOT including the tag
             tag = seg.read_ptr(offset)
             count = ptr.offset(tag)
             data_size = ptr.struct_data_size(tag)
             ptrs_size = ptr.struct_ptrs_size(tag)
+            if count < 0 or count * (data_size+ptrs_size) != total_words:
+                # the items do not fill exactly the space of the list
+                return -1
             return _endof_list_composite(seg, p, offset,
                                          count, data_size, ptrs_size)
         elif item_size == ptr.LIST_SIZE_PTR:
-- 
2.43.0


From 1cc2e34eeaa216f1ba156a9c498d7e6b6364137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 14/37] fix: FileLikeAdapter.readline() returned the method
 instead of calling it

---
 capnpy/filelike.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/filelike.py b/capnpy/filelike.py
index 831ae11..0af2a40 100644
--- a/capnpy/filelike.py
+++ b/capnpy/filelike.py
@@ -53,4 +53,4 @@ class FileLikeAdapter(FileLike):
         return self._read(size)
 
     def readline(self):
-        return self._readline
+        return self._readline()
-- 
2.43.0


From e9833ee4b2158f89f9dde00bd5d81c6303bcf37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 15/37] fix: sizes and segment counts of messages do not fit
 into a C int

---
 capnpy/buffered.pxd | 20 ++++++++++----------
 capnpy/filelike.pxd |  4 ++--
 capnpy/message.pxd  | 10 +++++-----
 capnpy/message.py   |  3 ++-
 4 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/capnpy/buffered.pxd b/capnpy/buffered.pxd
index d960142..d7ddc2e 100644
--- a/capnpy/buffered.pxd
+++ b/capnpy/buffered.pxd
@@ -3,16 +3,16 @@ from capnpy.filelike cimport FileLike
 
 cdef class BufferedStream(FileLike):
     cdef readonly bytes buf
-    cdef readonly int i
+    cdef readonly long i
 
-    cdef _fillbuf(self, int size)
+    cdef _fillbuf(self, long size)
     cdef bytes _readall(self)
     cpdef bytes _readchunk(self)
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=long, j=long)
+    cpdef bytes read(self, long size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=long, j=long)
     cpdef bytes readline(self)
 
 
@@ -25,12 +25,12 @@ cdef class BufferedSocket(BufferedStream):
 
 cdef class StringBuffer(FileLike):
     cdef readonly bytes s
-    cdef readonly int i
+    cdef readonly long i
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=long, j=long)
+    cpdef bytes read(self, long size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=long, j=long)
     cpdef bytes readline(self)
 
-    cpdef int tell(self)
+    cpdef long tell(self)
diff --git a/capnpy/filelike.pxd b/capnpy/filelike.pxd
index d6598f6..e197a85 100644
--- a/capnpy/filelike.pxd
+++ b/capnpy/filelike.pxd
@@ -1,12 +1,12 @@
 cpdef FileLike as_filelike(object f)
 
 cdef class FileLike:
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, long size=*)
     cpdef bytes readline(self)
 
 cdef class FileLikeAdapter(FileLike):
     cdef object _read
     cdef object _readline
 
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, long size=*)
     cpdef bytes readline(self)
diff --git a/capnpy/message.pxd b/capnpy/message.pxd
index 39965af..7cf14f2 100644
--- a/capnpy/message.pxd
+++ b/capnpy/message.pxd
@@ -14,15 +14,15 @@ cpdef loads(bytes buf, object payload_type)
 #cpdef load_all(FileLike f, object payload_type)
 
 
-@cython.locals(buf = bytes, n=int, length=int)
+@cython.locals(buf = bytes, n=long, length=long)
 cpdef Struct _load_message(FileLike f)
 
-@cython.locals(buf=bytes, message_size=int, message_lenght=int)
+@cython.locals(buf=bytes, message_size=long, message_lenght=long)
 cpdef _load_buffer_single_segment(FileLike f)
 
-@cython.locals(fmt=bytes, size=int, buf=bytes, bytes_read=int,
-                padding=int, message_lenght=int, offset=int, size=int)
-cpdef _load_buffer_multiple_segments(FileLike f, int n)
+@cython.locals(fmt=bytes, size=long, buf=bytes, bytes_read=long,
+                padding=long, message_lenght=long, offset=long, size=long)
+cpdef _load_buffer_multiple_segments(FileLike f, long n)
 
 @cython.locals(builder=SegmentBuilder, segment_size=long, segment_count=long,
                p=long, start=long, end=long)
diff --git a/capnpy/message.py b/capnpy/message.py
index 6376ee4..8c3875a 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -58,7 +58,8 @@ def _load_message(f):
         raise EOFError("No message to load")
     elif length < 4:
         raise ValueError("Malformed header: expected 4 bytes, got %d" % len(buf))
-    n = unpack_uint32(buf, 0) + 1
+    n = unpack_uint32(buf, 0)
+    n += 1 # separate statement, so that Cython does the sum on a long
     if n == 1:
         capnp_buf = _load_buffer_single_segment(f) # fast path
     else:
-- 
2.43.0


From 0f38095306bf00c5444c5fe3fc51b82d64685862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 16/37] fix: report streams which end inside the padding of the
 header

---
 capnpy/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index 8c3875a..08a0a40 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -110,7 +110,9 @@ def _load_buffer_multiple_segments(f, n):
     bytes_read = 4 + n*4 # 4 bytes for the n, plus 4 bytes for each segment
     if bytes_read & 7 != 0: # using & is faster than % (x & 7 == x % 8)
         padding = 8-(bytes_read & 7)
-        f.read(padding)
+        buf = f.read(padding)
+        if len(buf) < padding:
+            raise ValueError("Unexpected EOF when reading the header")
     #
     # 3. read the body of the message
     message_lenght = sum(segments)*8
-- 
2.43.0


From 289a2515e718d9012c3cb0dbe1e0a100d687f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 17/37] fix: lists of structs whose items are smaller or larger
 than the schema

Items with other section sizes than the ones of the schema were written into
slots of the wrong size: pointers ended up in the data section, and items
overwrote each other or whatever follows the list.
---
 capnpy/list.pxd                 |  3 +++
 capnpy/list.py                  |  8 ++++++--
 capnpy/segment/_copy_list.py    | 17 ++++++++++++++---
 capnpy/segment/_copy_pointer.py |  8 +++++---
 capnpy/segment/builder.pxd      |  2 +-
 capnpy/segment/builder.py       |  7 ++++---
 capnpy/segment/builder.pyx      |  7 ++++---
 7 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/capnpy/list.pxd b/capnpy/list.pxd
index 6e46b07..6f2a458 100644
--- a/capnpy/list.pxd
+++ b/capnpy/list.pxd
@@ -51,6 +51,9 @@ cdef class StructItemType(ItemType):
     cdef readonly long static_data_size
     cdef readonly long static_ptrs_size
 
+    cpdef check_item(self, object item)
+    cpdef write_struct(self, SegmentBuilder builder, long pos, Struct item, long data_size)
+
 cdef class TextItemType(ItemType):
     cdef readonly int additional_size
 
diff --git a/capnpy/list.py b/capnpy/list.py
index 6b87cd3..1a8aee7 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -301,13 +301,17 @@ class StructItemType(ItemType):
     def item_repr(self, item):
         return item.shortrepr()
 
-    def write_item(self, builder, pos, item):
+    def check_item(self, item):
         structcls = self.structcls
         if not isinstance(item, structcls):
             raise TypeError("Expected an object of type %s, got %s instead" %
                             (self.structcls.__name__, item.__class__.__name__))
+
+    def write_struct(self, builder, pos, item, data_size):
+        # data_size is the size of the data section of the items of the list:
+        # the one of this particular item might be smaller
         p = item._as_pointer(0)
-        builder.copy_inline_struct(pos, item._seg, p, 0)
+        builder.copy_inline_struct(pos, item._seg, p, 0, data_size)
 
 
 class TextItemType(ItemType):
diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index 3e671e2..5bb418b 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -33,16 +33,27 @@ def copy_from_list(builder, pos, item_type, lst):
         struct_item_type = item_type
         data_size = struct_item_type.static_data_size
         ptrs_size = struct_item_type.static_ptrs_size
+        # items might come from a message which was written with a newer
+        # version of the schema: all of them must fit
+        for item in lst:
+            struct_item_type.check_item(item)
+            data_size = max(data_size, item._data_size)
+            ptrs_size = max(ptrs_size, item._ptrs_size)
+        item_length = (data_size+ptrs_size) * 8
+        body_length = item_length * item_count
         total_words = (data_size+ptrs_size) * item_count
         pos = builder.alloc_list(pos, size_tag, total_words,
                                  body_length + 8) # +8 is for the tag
         tag = ptr.new_struct(item_count, data_size, ptrs_size)
         builder.write_int64(pos, tag)
         pos += 8
-    else:
-        # alloc the list, no tag
-        pos = builder.alloc_list(pos, size_tag, item_count, body_length)
+        for item in lst:
+            struct_item_type.write_struct(builder, pos, item, data_size)
+            pos += item_length
+        return
     #
+    # alloc the list, no tag
+    pos = builder.alloc_list(pos, size_tag, item_count, body_length)
     for item in lst:
         item_type.write_item(builder, pos, item)
         pos += item_length
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 9739110..82ebead 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -124,12 +124,14 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
-               data_size=long, ptrs_size=long, ds=long)
-def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
+               dst_data_size=long, data_size=long, ptrs_size=long, ds=long)
+def _copy_struct_inline(src, p, src_pos, dst, dst_pos, dst_data_size):
     # this does the same as _copy_struct, but instead of allocating space for
     # it, it fills an already-allocated space (useful e.g. for writing structs
     # into lists).
     #
+    # dst_data_size is the size of the data section of the allocated space.
+    #
     # I have tried several ways to reduce code duplication (such as adding a
     # do_allocation param to determine whether to allocate or not), but it
     # always caused a ~30% slowdown. Apparently, it seems to be related to the
@@ -145,7 +147,7 @@ def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
     ds = data_size*8
     check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
-    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
+    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+dst_data_size*8)
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index aeb48bd..758dc23 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -42,5 +42,5 @@ cdef class SegmentBuilder(object):
                             Py_ssize_t src_pos)
     cpdef copy_from_struct(self, Py_ssize_t dst_pos, type structcls, Struct value)
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos)
+                             long p, Py_ssize_t src_pos, long dst_data_size)
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 968a0ed..f0ea2ab 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -117,15 +117,16 @@ class SegmentBuilder(object):
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    def copy_inline_struct(self, dst_pos, src, p, src_pos):
+    def copy_inline_struct(self, dst_pos, src, p, src_pos, dst_data_size):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, where dst_data_size words are
+             reserved for the data section
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_data_size)
 
     def copy_from_list(self, pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9d05030..5554485 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -185,15 +185,16 @@ cdef class SegmentBuilder(object):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos):
+                             long p, Py_ssize_t src_pos, long dst_data_size):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, where dst_data_size words are
+             reserved for the data section
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_data_size)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
-- 
2.43.0


From b6dc331072988a2b73f96f8fee2b3c155d18792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 18/37] fix: pure-Python builder: refuse text and data which
 are not bytes

---
 capnpy/segment/builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index f0ea2ab..b3c14dc 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -94,6 +94,10 @@ class SegmentBuilder(object):
         if s is None:
             self.write_int64(pos, 0)
             return -1
+        if not isinstance(s, binary_type):
+            # same as the "bytes s" declaration of the compiled version: else
+            # e.g. a list of small integers would be happily accepted
+            raise TypeError('Expected bytes, got %s' % type(s).__name__)
         n = len(s)
         nn = n + trailing_zero
         result = self.alloc_list(pos, ptr.LIST_SIZE_8, nn, nn)
-- 
2.43.0


From d1dae860172bef9e167e8fdd92d7a372c087c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 19/37] fix: comparing lists compares their items, not their
 bytes

The slice of bytes of a list of pointers is not delimited by _get_end() if the
pointed objects are not compact, and even when it is, equal bytes do not mean
equal items (floats) nor different bytes different items (padding bits,
pointers, far pointers, lists of composites).
---
 capnpy/list.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 1a8aee7..eafc170 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -10,6 +10,9 @@ from capnpy.util import (float32_repr, float64_repr, decode_maybe,
                          encode_maybe, text_bytes_repr, text_unicode_repr)
 from capnpy.segment.endof import endof
 
+INTEGERS = (Types.int8, Types.uint8, Types.int16, Types.uint16,
+            Types.int32, Types.uint32, Types.int64, Types.uint64)
+
 class List(Blob):
 
     @classmethod
@@ -85,9 +88,19 @@ class List(Blob):
         # XXX: investigate whether it is faster to user memoryview for
         # comparing the memory without doing a full copy
         start = self._offset
-        end = self._get_end()
+        end = start + self._item_count*self._item_length
         return self._seg.buf[start:end]
 
+    def _can_compare_slice(self, other):
+        # the bytes say whether the items are equal only for integers: for
+        # floats there are NaN and -0.0, and the pointers and the padding can
+        # be different even if the items are the same
+        t = self._item_type.get_type()
+        return (t is other._item_type.get_type() and
+                t in INTEGERS and
+                self._size_tag == self._item_type.size_tag and
+                other._size_tag == self._item_type.size_tag)
+
     def _equals(self, other):
         if not self._item_type.can_compare():
             raise TypeError("Cannot compare lists of structs.")
@@ -95,9 +108,13 @@ class List(Blob):
             return list(self) == other
         if self.__class__ is not other.__class__:
             return False
-        return (self._item_count == other._item_count and
-                self._item_type.get_type() == other._item_type.get_type() and
-                self._get_slice() == other._get_slice())
+        if not other._item_type.can_compare():
+            raise TypeError("Cannot compare lists of structs.")
+        if self._item_count != other._item_count:
+            return False
+        if self._can_compare_slice(other):
+            return self._get_slice() == other._get_slice()
+        return list(self) == list(other)
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
-- 
2.43.0


From b4e28ef70ed4d8eef20de3664f54b0535fc89d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 20/37] fix: AnyPointer: look at the object a far pointer
 points to; null is not a struct

---
 capnpy/anypointer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/capnpy/anypointer.py b/capnpy/anypointer.py
index e701396..952e4ba 100644
--- a/capnpy/anypointer.py
+++ b/capnpy/anypointer.py
@@ -9,16 +9,23 @@ class AnyPointer(object):
         self.struct_ = struct_
         self.offset = offset
 
-    def is_struct(self):
+    def _read_ptr(self):
         p = self.struct_._read_fast_ptr(self.offset)
-        return ptr.kind(p) == ptr.STRUCT
+        if ptr.kind(p) == ptr.FAR:
+            # what matters is the object, not where it is
+            _, p = self.struct_._read_far_ptr(self.offset)
+        return p
+
+    def is_struct(self):
+        p = self._read_ptr()
+        return p != 0 and ptr.kind(p) == ptr.STRUCT
 
     def is_list(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.LIST
 
     def is_text(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return (ptr.kind(p) == ptr.LIST and
                 ptr.list_size_tag(p) == ptr.LIST_SIZE_8)
 
-- 
2.43.0


From 0d7e9a8b3548c410cfc4393942a90f53f1cdbb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 21/37] fix: escape text in repr() the way capnp does; null
 items and Data items of lists

---
 capnpy/list.py |  9 ++++++++-
 capnpy/util.py | 19 ++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index eafc170..fd7a38b 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -7,7 +7,8 @@ from capnpy.type import Types, BuiltinType
 from capnpy.blob import Blob, PYX
 from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe,
-                         encode_maybe, text_bytes_repr, text_unicode_repr)
+                         encode_maybe, text_bytes_repr, text_unicode_repr,
+                         data_repr)
 from capnpy.segment.endof import endof
 
 INTEGERS = (Types.int8, Types.uint8, Types.int16, Types.uint16,
@@ -354,6 +355,10 @@ class TextItemType(ItemType):
         return lst._seg.read_str(p, offset, None, self.additional_size)
 
     def item_repr(self, item):
+        if item is None:
+            item = b''
+        if self.additional_size == 0:
+            return data_repr(item)
         return text_bytes_repr(item)
 
     def write_item(self, builder, pos, item):
@@ -376,6 +381,8 @@ class TextUnicodeItemType(TextItemType):
         return decode_maybe(res)
 
     def item_repr(self, item):
+        if item is None:
+            item = u''
         return text_unicode_repr(item)
 
     def write_item(self, builder, pos, item):
diff --git a/capnpy/util.py b/capnpy/util.py
index d69c4f5..47ab926 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -89,10 +89,23 @@ def check_version(modname, version):
 def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
+# the escape sequences used by capnp to print the text
+TEXT_ESCAPES = dict((ch, u'\\%03o' % ch) for ch in list(range(0x20)) + [0x7f])
+TEXT_ESCAPES.update({
+    0x07: u'\\a',
+    0x08: u'\\b',
+    0x09: u'\\t',
+    0x0a: u'\\n',
+    0x0b: u'\\v',
+    0x0c: u'\\f',
+    0x0d: u'\\r',
+    0x22: u'\\"',
+    0x27: u"\\'",
+    0x5c: u'\\\\',
+})
+
 def text_unicode_repr(s):
-    s = s.replace('"', r'\"')
-    s = s.replace("'", r"\'")
-    return u'"%s"' % s
+    return u'"%s"' % s.translate(TEXT_ESCAPES)
 
 def data_repr(s):
     s = repr(s).lstrip('b')
-- 
2.43.0


From 39aeb715ebdb564bf70ec87dee2760a75b6b3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 22/37] fix: honor the versionCheck option of the file

---
 capnpy/compiler/module.py  | 1 -
 capnpy/compiler/request.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index bfe9d3f..02e55a1 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -29,7 +29,6 @@ class ModuleGenerator(object):
         self.standalone = standalone
         self.default_options = default_options
         self.capnproto_version = capnproto_version
-        self.version_check = default_options.version_check
         self.code = Code(pyx=self.pyx)
         self.allnodes = {} # id -> node
         self.children = defaultdict(list) # nodeId -> nested nodes
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 8ecb329..ce76fe0 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -93,7 +93,7 @@ class RequestedFile:
         m.w('__capnpy_id__ = {id:#x}', id=self.id)
         m.w('__capnpy_version__ = {version!r}', version=capnpy.__version__)
         m.w('__capnproto_version__ = {version!r}', version=m.capnproto_version)
-        if m.version_check:
+        if m.options(filenode).version_check:
             m.w('_check_version(__name__, __capnpy_version__)')
         else:
             m.w('# schema compiled with --no-version-check, skipping the call to _check_version')
-- 
2.43.0


From c4b82f00c14aa6ca1043eda65f272e4a89c71ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 23/37] fix: distinct and valid names for the imported schemas

---
 capnpy/compiler/module.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 02e55a1..3d06a72 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+import re
 import py
 import six
 import keyword
@@ -126,10 +127,14 @@ class ModuleGenerator(object):
     def register_import(self, fname):
         name = py.path.local(fname).purebasename
         name = name.replace('+', 'PLUS')
-        name = '_%s_capnp' % name
-        if name in self.importnames.values():
+        name = re.sub('[^A-Za-z0-9_]', '_', name)
+        basename = '_%s_capnp' % name
+        name = basename
+        i = 0
+        while name in self.importnames.values():
             # avoid name clashes
-            name = '%s_%s' % (name, len(self.filenames))
+            i += 1
+            name = '%s_%s' % (basename, i)
         self.importnames[fname] = name
         return name
 
-- 
2.43.0


From fb77c61a28ae2bb44a747460f43984e4d3e31c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 24/37] fix: packing.pyx checked bounds in a C int, which
 overflows for offsets near INT_MAX

---
 capnpy/packing.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/packing.pyx b/capnpy/packing.pyx
index 30ba213..ce1d55c 100644
--- a/capnpy/packing.pyx
+++ b/capnpy/packing.pyx
@@ -35,7 +35,7 @@ cdef char* as_cbuf(object buf, Py_ssize_t* length, bint rw=0) except NULL:
         else:
             raise TypeError("Expected str or bytearray")
 
-cdef checkbound(int size, Py_ssize_t length, int offset):
+cdef checkbound(Py_ssize_t size, Py_ssize_t length, Py_ssize_t offset):
     if offset < 0 or offset + size > length:
         raise IndexError('Offset out of bounds: %d' % offset)
 
-- 
2.43.0


From 1c827586a7b9b690048d07b4b262358f6a82bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:13 +0000
Subject: [PATCH 25/37] fix: the hash of a key with a null unicode text matches
 its tuple

---
 capnpy/struct_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 63fcf56..c53cd1d 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -261,7 +261,9 @@ class Struct(Blob):
     def _hash_text_unicode(self, offset, default_=hash(None)):
         # XXX: this is not a "fast hash" at all, it creates an unicode and the
         # computes the hash on it
-        u = self._read_text_unicode(offset, default_=b'')
+        u = self._read_text_unicode(offset)
+        if u is None:
+            return default_
         return hash(u)
 
     def _read_data(self, offset, default_=None, additional_size=0):
-- 
2.43.0


From d3750b534e30fa5ba0e2388dd1b4609b1e2f0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 26/37] fix: a float in a list of integers is refused instead
 of truncated

---
 capnpy/segment/builder.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 5554485..620cc27 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -55,6 +55,9 @@ cdef class SegmentBuilder(object):
         return _PyString_FromStringAndSize(self.cbuf, self.end)
 
     cpdef object write_generic(self, char ifmt, Py_ssize_t i, object value):
+        if ifmt != 'd' and ifmt != 'f' and isinstance(value, float):
+            # the conversion to a C integer would silently truncate it
+            raise TypeError('required an integer, got a float')
         if ifmt == 'q':
             self.write_int64(i, value)
         elif ifmt == 'Q':
-- 
2.43.0


From 193d710af55d23d0a4a22c9df9131478ce37c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 27/37] fix: hash of a text whose malformed pointer goes out of
 the message

---
 capnpy/_hash.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 0ba3521..bd2ceca 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -23,9 +23,12 @@ cdef int PY3 = PY_MAJOR_VERSION == 3
 
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
+    if start < 0 or size < 0:
+        # malformed pointer: do the same as slicing
+        return hash(a[start:start+size])
     if start >= maxlen or size == 0:
         return 0
-    if size > maxlen:
+    if size > maxlen-start:
         size = maxlen-start
 
     cdef const unsigned char* p = a
-- 
2.43.0


From 53d942270390be65757a63082f979dde6314796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 28/37] fix: overflow in the bound checks of the offsets near
 the maximum

---
 capnpy/segment/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/base.pyx b/capnpy/segment/base.pyx
index 5e6e531..7078bae 100644
--- a/capnpy/segment/base.pyx
+++ b/capnpy/segment/base.pyx
@@ -14,7 +14,7 @@ cdef extern from "_util.h":
 cpdef uint32_t unpack_uint32(bytes buf, Py_ssize_t offset) except? 0xffffffff:
     cdef const char *cbuf = _PyString_AS_STRING(buf)
     cdef Py_ssize_t buflen = _PyString_GET_SIZE(buf)
-    if offset < 0 or offset + 4 > buflen:
+    if offset < 0 or offset > buflen - 4:
         raise IndexError('Offset out of bounds: %d' % (offset+4))
     return (<uint32_t*>(cbuf+offset))[0]
 
@@ -41,7 +41,7 @@ cdef class BaseSegment(object):
         # consider adding a read_int64_fast or similar method, which does
         # *not* do the check.
         cdef Py_ssize_t buflen = _PyString_GET_SIZE(self.buf)
-        if offset < 0 or offset + size > buflen:
+        if offset < 0 or offset > buflen - size:
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     @cython.final
-- 
2.43.0


From 5789ec0d05466e51aa4cdb0310274cd5cdf2cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 29/37] fix: report when there is no memory to enlarge the
 builder, instead of writing out of it

---
 capnpy/segment/builder.pxd |  2 +-
 capnpy/segment/builder.pyx | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index 758dc23..6199d64 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -14,7 +14,7 @@ cdef class SegmentBuilder(object):
                                      # cbuf; the next allocation will start at
                                      # this position
 
-    cdef void _resize(self, Py_ssize_t minlen)
+    cdef int _resize(self, Py_ssize_t minlen) except -1
     cpdef Py_ssize_t get_length(self)
     cpdef as_string(self)
 
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 620cc27..84794e7 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -8,7 +8,7 @@ from capnpy.struct_ cimport Struct
 from capnpy.list cimport List, ItemType, StructItemType
 
 cdef extern from "Python.h":
-    int PyByteArray_Resize(object o, Py_ssize_t len)
+    int PyByteArray_Resize(object o, Py_ssize_t len) except -1
     char* PyByteArray_AS_STRING(object o)
 
 cdef extern from "_util.h":
@@ -29,7 +29,7 @@ cdef class SegmentBuilder(object):
         self.cbuf = PyByteArray_AS_STRING(self.buf)
         self.end = 0
 
-    cdef void _resize(self, Py_ssize_t minlen):
+    cdef int _resize(self, Py_ssize_t minlen) except -1:
         # exponential growth of the buffer. By using this formula, we grow
         # faster at the beginning (where the constant plays a major role) and
         # slower when the buffer it's already big (where length >> 1 plays a
@@ -47,6 +47,7 @@ cdef class SegmentBuilder(object):
         ##     print '        %s --> %s' % (curlen, newlen)
         memset(self.cbuf + curlen, 0, newlen - curlen)
         self.length = newlen
+        return 0
 
     cpdef Py_ssize_t get_length(self):
         return self.end
@@ -128,9 +129,10 @@ cdef class SegmentBuilder(object):
         position of the newly allocated space.
         """
         cdef Py_ssize_t result = self.end
-        self.end += length
-        if self.end > self.length:
-            self._resize(self.end)
+        cdef Py_ssize_t end = result + length
+        if end > self.length:
+            self._resize(end)
+        self.end = end
         return result
 
     cpdef Py_ssize_t alloc_struct(self, Py_ssize_t pos, long data_size, long ptrs_size):
-- 
2.43.0


From 3477336c3b9e986d3087c731df4d4e72469b3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 30/37] fix: raise RecursionError instead of overflowing the C
 stack, when the pointers form a long chain or a cycle

---
 capnpy/compiler/request.py       |  1 +
 capnpy/compiler/struct_.py       | 27 +++++++++++++++++++++++++--
 capnpy/recursion.pxd             |  5 +++++
 capnpy/recursion.py              | 14 ++++++++++++++
 capnpy/segment/_copy_pointer.py  | 14 ++++++++++++++
 capnpy/segment/_copy_pointer.pyx |  1 +
 capnpy/segment/endof.pxd         |  3 +++
 capnpy/segment/endof.py          |  9 +++++++++
 8 files changed, 72 insertions(+), 2 deletions(-)
 create mode 100644 capnpy/recursion.pxd
 create mode 100644 capnpy/recursion.py

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index ce76fe0..e3c55df 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -80,6 +80,7 @@ class RequestedFile:
         #
         if m.pyx:
             m.w("from capnpy cimport _hash")
+            m.w("from capnpy cimport recursion as _recursion")
             all_types = [t.name for t in Types.__all__ if t is not Types.text]
             all_types += ['text_bytes', 'text_unicode']
             for tname in all_types:
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 48173b4..628c084 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -210,7 +210,20 @@ class Node__Struct:
         #     parts.append("y = %s" % self.y)
         #     return "(%s)" % ", ".join(parts)
         #
-        with m.block('{cpdef} shortrepr(self):') as ns:
+        proto = '{cpdef} shortrepr(self):'
+        if m.pyx:
+            # the struct might contain a cycle
+            m.code.ww('''
+                cpdef shortrepr(self):
+                    _recursion.enter(b" while getting the repr of a capnp struct")
+                    try:
+                        return self._shortrepr()
+                    finally:
+                        _recursion.leave()
+            ''')
+            m.w()
+            proto = 'cdef _shortrepr(self):'
+        with m.block(proto) as ns:
             fields = self.get_struct_fields() or []
             ns.w('parts = []')
             for f in fields:
@@ -307,7 +320,17 @@ class Node__Struct:
         # emit a specialized, fast __hash__.
         fields = {f.name: f for f in self.get_struct_fields()}
         m.w()
-        with m.code.block('def __hash__(self):') as ns:
+        m.code.ww('''
+            def __hash__(self):
+                # the struct might contain a cycle
+                _recursion.enter(b" while hashing a capnp struct")
+                try:
+                    return self._fast_hash()
+                finally:
+                    _recursion.leave()
+        ''')
+        m.w()
+        with m.code.block('cdef long _fast_hash(self) except? -1:') as ns:
             ns.n = len(fieldnames)
             ns.w('cdef long h[{n}]')
             # compute the hash of each field
diff --git a/capnpy/recursion.pxd b/capnpy/recursion.pxd
new file mode 100644
index 0000000..4598145
--- /dev/null
+++ b/capnpy/recursion.pxd
@@ -0,0 +1,5 @@
+# when C functions call each other, nobody checks that the C stack does not
+# overflow unless we explicitly do it. See also recursion.py
+cdef extern from "Python.h":
+    int enter "Py_EnterRecursiveCall" (const char *where) except -1
+    void leave "Py_LeaveRecursiveCall" ()
diff --git a/capnpy/recursion.py b/capnpy/recursion.py
new file mode 100644
index 0000000..8798632
--- /dev/null
+++ b/capnpy/recursion.py
@@ -0,0 +1,14 @@
+"""
+Protection against the stack overflows caused by the pointers of a malformed
+message, which might form a very long chain or even a cycle.
+
+In PYX mode the functions are defined in recursion.pxd. Here they do nothing,
+because the Python interpreter already checks the recursion of the functions
+which are written in Python.
+"""
+
+def enter(where):
+    pass
+
+def leave():
+    pass
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 82ebead..ffdc450 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -28,6 +28,7 @@ if not cython.compiled:
     # this code runs only if we are in pure-python mode. If we are in PYX
     # mode, the equivalent functions are defined in _copy_pointer.pyx
     from capnpy import ptr
+    from capnpy import recursion
     from capnpy.segment.builder import SegmentBuilder
     from capnpy.segment.base import BaseSegment
     if PY3: long = int
@@ -70,6 +71,19 @@ def copy_pointer(src, p, src_pos, dst, dst_pos):
     Copy from: BaseSegment src, pointer p living at the src_pos offset
            to: SegmentBuilder dst at position dst_pos
     """
+    # the pointers might form a very long chain, or even a cycle
+    recursion.enter(b" while copying a capnp object")
+    try:
+        _copy_pointer(src, p, src_pos, dst, dst_pos)
+    finally:
+        recursion.leave()
+
+@cython.cfunc
+##@cython.returns(long)
+##@cython.except_(-1)
+@cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
+               kind=long)
+def _copy_pointer(src, p, src_pos, dst, dst_pos):
     kind = ptr.kind(p)
     if kind == ptr.STRUCT:
         return _copy_struct(src, p, src_pos, dst, dst_pos)
diff --git a/capnpy/segment/_copy_pointer.pyx b/capnpy/segment/_copy_pointer.pyx
index d8e03bf..4db845b 100644
--- a/capnpy/segment/_copy_pointer.pyx
+++ b/capnpy/segment/_copy_pointer.pyx
@@ -4,6 +4,7 @@
 from libc.stdint cimport int64_t
 
 from capnpy cimport ptr
+from capnpy cimport recursion
 from capnpy.segment.builder cimport SegmentBuilder
 from capnpy.segment.base cimport BaseSegment
 
diff --git a/capnpy/segment/endof.pxd b/capnpy/segment/endof.pxd
index 547b944..1a8e86f 100644
--- a/capnpy/segment/endof.pxd
+++ b/capnpy/segment/endof.pxd
@@ -1,9 +1,12 @@
 import cython
 from capnpy cimport ptr
+from capnpy cimport recursion
 from capnpy.segment.segment cimport Segment
 
 cpdef long endof(Segment seg, long p, long offset) except -2
 
+cdef long _endof(Segment seg, long p, long offset) except -2
+
 @cython.locals(i=long, p_offset=long, p=long)
 cdef long _endof_ptrs(Segment seg, long offset, long ptrs_size,
                      long current_end)
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 6a3c91e..116d0ef 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -1,4 +1,5 @@
 from capnpy import ptr
+from capnpy import recursion
 
 def endof(seg, p, offset):
     """
@@ -15,6 +16,14 @@ def endof(seg, p, offset):
 
       4. there are no FAR pointers
     """
+    # the pointers might form a very long chain
+    recursion.enter(b" while looking for the end of a capnp object")
+    try:
+        return _endof(seg, p, offset)
+    finally:
+        recursion.leave()
+
+def _endof(seg, p, offset):
     kind = ptr.kind(p)
     offset = ptr.deref(p, offset)
     if kind == ptr.STRUCT:
-- 
2.43.0


From f59b4be3091232801e7e8fc39731a0f284e05496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 31/37] fix: do not copy from before the start of the message,
 and check the bounds before allocating

---
 capnpy/segment/_copy_pointer.h  | 3 ++-
 capnpy/segment/_copy_pointer.py | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.h b/capnpy/segment/_copy_pointer.h
index 1bc687c..3a402e0 100644
--- a/capnpy/segment/_copy_pointer.h
+++ b/capnpy/segment/_copy_pointer.h
@@ -7,7 +7,8 @@ static PyObject* RAISE_OUT_OF_BOUNDS(Py_ssize_t, Py_ssize_t);
     (Py_INCREF(Py_None), Py_None);                                      \
     {                                                                   \
         /* _PyString_GET_SIZE is included from _util.h */               \
-        if ((offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
+        if ((offset) < 0 ||                                             \
+            (offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
             /* raise and return error */                                \
             return RAISE_OUT_OF_BOUNDS(size, offset);                   \
         }                                                               \
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index ffdc450..ed2bd9d 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -39,7 +39,7 @@ if not cython.compiled:
     # it. However, we can trick Cython by calling it _check_bounds and
     # 'rename' it later by modifying globals(). Bah.
     def _check_bounds(src, size, offset):
-        if offset+size > len(src.buf):
+        if offset < 0 or offset+size > len(src.buf):
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     def _read_int64_fast(src, offset):
@@ -128,8 +128,8 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
         dst.write_int64(dst_pos, ptr.new_struct(-1, 0, 0))
         return
     ds = data_size*8
+    check_bounds(src, ds + ptrs_size*8, src_pos)
     dst_pos = dst.alloc_struct(dst_pos, data_size, ptrs_size)
-    check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
     _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
 
@@ -179,8 +179,8 @@ def _copy_list_primitive(src, p, src_pos, dst, dst_pos):
     else:
         body_length = count * ptr.list_item_length(size_tag)
     #
-    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
 
 
@@ -193,8 +193,8 @@ def _copy_list_ptr(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     count = ptr.list_item_count(p)
     body_length = count*8
-    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     _copy_many_ptrs(count, src, src_pos, dst, dst_pos)
 
 
-- 
2.43.0


From 6d27de8fb18850c5c020e9957f6beaec7b234bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 32/37] fix: refuse to copy a list of structs whose items
 overrun its size

---
 capnpy/segment/_copy_pointer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index ed2bd9d..4821a1a 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -217,11 +217,15 @@ def _copy_list_composite(src, p, src_pos, dst, dst_pos):
     count = ptr.offset(tag)
     data_size = ptr.struct_data_size(tag)
     ptrs_size = ptr.struct_ptrs_size(tag)
+    if count < 0 or count * (data_size+ptrs_size) > total_words:
+        raise ValueError("The items of the list overrun its word count")
     #
     # allocate the list and copy the whole body at once
     dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_COMPOSITE, total_words, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
     #
+    if ptrs_size == 0:
+        return
     # iterate over the elements, fix the pointers and copy the content
     i = 0
     item_length = (data_size+ptrs_size) * 8
-- 
2.43.0


From b6bb1441d3435189e233ec6ccfc80844ca89d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:51 +0000
Subject: [PATCH 33/37] fix: emit constants which are inf or nan as valid
 Python

repr() of an infinite or NaN float is not a Python expression: a schema with
such a constant produced a module which raises NameError (or does not
compile, with Cython).
---
 capnpy/compiler/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 65e3638..0635f17 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -5,6 +5,8 @@ from capnpy.schema import (Node, Node__Enum, Node__Const, Node__Annotation,
 from capnpy import annotate
 from capnpy.compiler.util import as_identifier
 
+INF = float('inf')
+
 # The implementation of each node is divided in three parts:
 #     1. forward declaration
 #     2. definition
@@ -174,7 +176,10 @@ class Node__Const:
         else:
             # for primitive types
             val = self.const.value.as_pyobj()
-            ns.constdecl = repr(val)
+            if isinstance(val, float) and (val != val or val in (INF, -INF)):
+                ns.constdecl = "float('%s')" % val # nan or inf
+            else:
+                ns.constdecl = repr(val)
         #
         ns.w('{varname} = {constdecl}')
 
-- 
2.43.0


From 584d5db7a29f0de9e805bffd55ae8752dcaf2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:17 +0000
Subject: [PATCH 34/37] fix: get the text form of structs with a nullable group
 in a union

shortrepr() used the private name of the group to find the accessor which
tells whether it is the current member of the union, which does not exist:
it raised AttributeError.
---
 capnpy/compiler/struct_.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 628c084..c5fc3ca 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -234,9 +234,10 @@ class Node__Struct:
                     # value, while obj._x returns the underlying capnproto
                     # group
                     assert f.is_group()
-                    ns.pyname = '_' + ns.pyname
+                    ns.fieldrepr = ns.format('self._{pyname}.shortrepr()')
+                else:
+                    ns.fieldrepr = self._shortrepr_for_field(m, ns, f)
                 #
-                ns.fieldrepr = self._shortrepr_for_field(m, ns, f)
                 ns.append = ns.format('parts.append("{capname} = %s" % {fieldrepr})')
                 ns.is_default_field = bool(f.discriminantValue == 0)
                 #
-- 
2.43.0


From 0fa45c9f19cb84bcee5f9e043c1e07faef03c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:08 +0000
Subject: [PATCH 35/37] fix: show the items of lists of enums by name in the
 text form

As in fields: they were shown by the repr of the Python object, which is not
the text form of Cap'n Proto.
---
 capnpy/list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/list.py b/capnpy/list.py
index fd7a38b..88f40d0 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -293,6 +293,9 @@ class EnumItemType(PrimitiveItemType):
         value = PrimitiveItemType.read_item(self, lst, i)
         return self.enumcls(value)
 
+    def item_repr(self, item):
+        return str(item)
+
 
 class StructItemType(ItemType):
 
-- 
2.43.0


From 77c524a126dabfef52524e620e310ecc576cfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:58 +0000
Subject: [PATCH 36/37] fix: decode ends normally at the end of the stream and
 reports truncated ones

---
 capnpy/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/__main__.py b/capnpy/__main__.py
index 812f9f8..a889685 100644
--- a/capnpy/__main__.py
+++ b/capnpy/__main__.py
@@ -57,7 +57,7 @@ def decode(args, options):
         while True:
             try:
                 obj = load(f, cls)
-            except ValueError:
+            except EOFError:
                 break
             print(obj.shortrepr())
             i += 1
-- 
2.43.0


From 1059d480f46aa740beb0fa1f11cb85346df6e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:58 +0000
Subject: [PATCH 37/37] fix: a Bool field given a number other than 0 and 1
 changed other fields or was inverted

---
 capnpy/compiler/structor.py | 2 +-
 capnpy/segment/builder.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 1eec269..985fd3b 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -226,5 +226,5 @@ class Structor(object):
         ns.byteoffset, ns.bitoffset = divmod(node.f.slot.offset, 8)
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
-            ns.w('{arg} ^= {default_}')
+            ns.w('{arg} = bool({arg}) ^ {default_}')
         ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index b3c14dc..7284346 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -54,7 +54,7 @@ class SegmentBuilder(object):
 
     def write_bool(self, byteoffset, bitoffset, value):
         current = struct.unpack_from('B', self.buf, byteoffset)[0]
-        current |= (value << bitoffset)
+        current |= (bool(value) << bitoffset)
         struct.pack_into('B', self.buf, byteoffset, current)
 
     def write_slice(self, i, src, start, n):
-- 
2.43.0

