From e811b4a3098266dcde489218d8e89238c92bf478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 01/42] fix: packing: do not overflow the C int in the bounds
 checks

---
 capnpy/packing.pxd | 12 ++++++------
 capnpy/packing.pyx | 17 +++++++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/capnpy/packing.pxd b/capnpy/packing.pxd
index 38cadde..d10106a 100644
--- a/capnpy/packing.pxd
+++ b/capnpy/packing.pxd
@@ -1,9 +1,9 @@
 cdef char* as_cbuf(object buf, Py_ssize_t* length, bint rw=*) except NULL
-cpdef unpack_primitive(char ifmt, object buf, int offset)
-cpdef long unpack_int64(object buf, int offset)
-cpdef long unpack_int16(object buf, int offset)
-cpdef long unpack_uint32(object buf, int offset)
+cpdef unpack_primitive(char ifmt, object buf, Py_ssize_t offset)
+cpdef long unpack_int64(object buf, Py_ssize_t offset)
+cpdef long unpack_int16(object buf, Py_ssize_t offset)
+cpdef long unpack_uint32(object buf, Py_ssize_t offset)
 cpdef bytes pack_message_header(int segment_count, int segment_size, long p)
 cpdef bytes pack_int64(long value)
-cpdef object pack_into(char ifmt, object buf, int offset, object value)
-cpdef object pack_int64_into(object buf, int offset, long value)
+cpdef object pack_into(char ifmt, object buf, Py_ssize_t offset, object value)
+cpdef object pack_int64_into(object buf, Py_ssize_t offset, long value)
diff --git a/capnpy/packing.pyx b/capnpy/packing.pyx
index 30ba213..e33f91b 100644
--- a/capnpy/packing.pyx
+++ b/capnpy/packing.pyx
@@ -35,11 +35,12 @@ cdef char* as_cbuf(object buf, Py_ssize_t* length, bint rw=0) except NULL:
         else:
             raise TypeError("Expected str or bytearray")
 
-cdef checkbound(int size, Py_ssize_t length, int offset):
-    if offset < 0 or offset + size > length:
+cdef checkbound(Py_ssize_t size, Py_ssize_t length, Py_ssize_t offset):
+    # note: "offset + size" might overflow
+    if offset < 0 or offset > length - size:
         raise IndexError('Offset out of bounds: %d' % offset)
 
-cpdef unpack_primitive(char ifmt, object buf, int offset):
+cpdef unpack_primitive(char ifmt, object buf, Py_ssize_t offset):
     cdef char* cbuf
     cdef void* valueaddr
     cdef uint64_t uint64_value
@@ -86,7 +87,7 @@ cpdef unpack_primitive(char ifmt, object buf, int offset):
     raise ValueError('unknown fmt %s' % chr(ifmt))
 
 
-cpdef long unpack_int64(object buf, int offset):
+cpdef long unpack_int64(object buf, Py_ssize_t offset):
     cdef char* cbuf
     cdef void* valueaddr
     cdef Py_ssize_t length = 0
@@ -95,7 +96,7 @@ cpdef long unpack_int64(object buf, int offset):
     checkbound(8, length, offset)
     return (<int64_t*>valueaddr)[0]
 
-cpdef long unpack_int16(object buf, int offset):
+cpdef long unpack_int16(object buf, Py_ssize_t offset):
     cdef char* cbuf
     cdef void* valueaddr
     cdef Py_ssize_t length = 0
@@ -104,7 +105,7 @@ cpdef long unpack_int16(object buf, int offset):
     checkbound(2, length, offset)
     return (<int16_t*>valueaddr)[0]
 
-cpdef long unpack_uint32(object buf, int offset):
+cpdef long unpack_uint32(object buf, Py_ssize_t offset):
     cdef char* cbuf
     cdef void* valueaddr
     cdef Py_ssize_t length = 0
@@ -133,7 +134,7 @@ cpdef bytes pack_int64(long value):
     (<int64_t*>(cbuf+0))[0] = value
     return buf
 
-cpdef object pack_into(char ifmt, object buf, int offset, object value):
+cpdef object pack_into(char ifmt, object buf, Py_ssize_t offset, object value):
     cdef char* cbuf
     cdef void* valueaddr
     cdef Py_ssize_t length = 0
@@ -173,7 +174,7 @@ cpdef object pack_into(char ifmt, object buf, int offset, object value):
         raise ValueError('unknown fmt %s' % chr(ifmt))
     return None
 
-cpdef object pack_int64_into(object buf, int offset, long value):
+cpdef object pack_int64_into(object buf, Py_ssize_t offset, long value):
     cdef char* cbuf
     cdef void* valueaddr
     cdef Py_ssize_t length = 0
-- 
2.43.0


From c09c89443582ac80cdab842482c35191c65ffc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 02/42] fix: segment: do not overflow in the bounds checks of
 the readers

---
 capnpy/segment/base.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/base.pyx b/capnpy/segment/base.pyx
index 5e6e531..639850f 100644
--- a/capnpy/segment/base.pyx
+++ b/capnpy/segment/base.pyx
@@ -14,7 +14,8 @@ cdef extern from "_util.h":
 cpdef uint32_t unpack_uint32(bytes buf, Py_ssize_t offset) except? 0xffffffff:
     cdef const char *cbuf = _PyString_AS_STRING(buf)
     cdef Py_ssize_t buflen = _PyString_GET_SIZE(buf)
-    if offset < 0 or offset + 4 > buflen:
+    # note: "offset + 4" might overflow
+    if offset < 0 or offset > buflen - 4:
         raise IndexError('Offset out of bounds: %d' % (offset+4))
     return (<uint32_t*>(cbuf+offset))[0]
 
@@ -41,7 +42,8 @@ cdef class BaseSegment(object):
         # consider adding a read_int64_fast or similar method, which does
         # *not* do the check.
         cdef Py_ssize_t buflen = _PyString_GET_SIZE(self.buf)
-        if offset < 0 or offset + size > buflen:
+        # note: "offset + size" might overflow
+        if offset < 0 or offset > buflen - size:
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     @cython.final
-- 
2.43.0


From 0d4a4bcbb63fec823e6cca0aa3ebe2bb5ac54b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 03/42] fix: segment: check that Text and Data are entirely
 inside the buffer

---
 capnpy/segment/segment.pxd |  4 ++--
 capnpy/segment/segment.py  | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/capnpy/segment/segment.pxd b/capnpy/segment/segment.pxd
index 300043a..cf48c24 100644
--- a/capnpy/segment/segment.pxd
+++ b/capnpy/segment/segment.pxd
@@ -8,10 +8,10 @@ cdef class Segment(BaseSegment):
     cpdef long read_ptr(self, long offset)
     cpdef read_far_ptr(self, long offset)
 
-    @cython.locals(p=long, start=long, end=long)
+    @cython.locals(p=long, start=long, size=long, end=long)
     cpdef read_str(self, long p, long offset, default_, int additional_size)
 
-    @cython.locals(p=long, start=long, size=long)
+    @cython.locals(p=long, start=long, size=long, end=long)
     cpdef long hash_str(self, long p, long offset, long default_, int additional_size) except -1
 
 
diff --git a/capnpy/segment/segment.py b/capnpy/segment/segment.py
index 632fd4c..62a2f74 100644
--- a/capnpy/segment/segment.py
+++ b/capnpy/segment/segment.py
@@ -46,8 +46,13 @@ class Segment(BaseSegment):
         assert ptr.kind(p) == ptr.LIST
         assert ptr.list_size_tag(p) == ptr.LIST_SIZE_8
         start = ptr.deref(p, offset)
-        end = start + ptr.list_item_count(p) + additional_size
-        return self.buf[start:end]
+        size = ptr.list_item_count(p)
+        end = start + size
+        if start < 0 or end > len(self.buf):
+            raise IndexError('Offset out of bounds: %d' % end)
+        if size == 0:
+            return b''
+        return self.buf[start:end+additional_size]
 
     def hash_str(self, p, offset, default_, additional_size):
         if p == 0:
@@ -55,8 +60,13 @@ class Segment(BaseSegment):
         assert ptr.kind(p) == ptr.LIST
         assert ptr.list_size_tag(p) == ptr.LIST_SIZE_8
         start = ptr.deref(p, offset)
-        size = ptr.list_item_count(p) + additional_size
-        return _hash.strhash(self.buf, start, size)
+        size = ptr.list_item_count(p)
+        end = start + size
+        if start < 0 or end > len(self.buf):
+            raise IndexError('Offset out of bounds: %d' % end)
+        if size == 0:
+            return _hash.strhash(self.buf, start, 0)
+        return _hash.strhash(self.buf, start, size+additional_size)
 
     def _print(self, **kwds):
         p = BufferPrinter(self.buf)
-- 
2.43.0


From 0cbcecd9e9ef94c432faf5ac50fc2a72d0c65470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 04/42] fix: _hash: strhash must not read outside the string

---
 capnpy/_hash.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 0ba3521..03b7185 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -23,9 +23,11 @@ cdef int PY3 = PY_MAJOR_VERSION == 3
 
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
+    if start < 0 or size < 0:
+        raise IndexError('Offset out of bounds: %d' % start)
     if start >= maxlen or size == 0:
         return 0
-    if size > maxlen:
+    if size > maxlen-start:
         size = maxlen-start
 
     cdef const unsigned char* p = a
-- 
2.43.0


From ad64c5a9af4f6c4f52cb967e38a8158e27b42ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 05/42] fix: list: items of a composite list read as primitives
 or lists start after its tag word

---
 capnpy/list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 84c4702..5023da2 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -243,7 +243,7 @@ class PrimitiveItemType(ItemType):
         return self.t
 
     def read_item(self, lst, i):
-        offset = lst._offset + (i * lst._item_length)
+        offset = self.offset_for_item(lst, i)
         return lst._seg.read_primitive(offset, self.ifmt)
 
     def item_repr(self, item):
@@ -368,7 +368,7 @@ class ListItemType(ItemType):
         return ('list', self.inner_item_type)
 
     def read_item(self, lst, i):
-        offset = lst._offset + (i*8)
+        offset = self.offset_for_item(lst, i)
         p = lst._seg.read_ptr(offset)
         if ptr.kind(p) == ptr.FAR:
             offset, p = lst._seg.read_far_ptr(offset)
-- 
2.43.0


From 8434d58ef741a09b07499cb3aea05593d2367bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 06/42] fix: ptr: pure-python new_struct/new_list/new_far
 return signed 64 bit pointers

---
 capnpy/ptr.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index a0d9145..7ec9e86 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -37,12 +37,18 @@ LIST_SIZE_COMPOSITE = 7
 ##
 ## =================================================================
 
+def _as_int64(p):
+    # a pointer is a signed 64 bit integer, as returned by read_int64/read_ptr
+    if p >= 1<<63:
+        p -= 1<<64
+    return p
+
 def new_generic(kind, offset, extra):
     p = 0
     p |= extra << 32
     p |= offset << 2
     p |= kind
-    return p
+    return _as_int64(p)
 
 def kind(ptr):
     return ptr & 0x3
@@ -84,7 +90,7 @@ def new_struct(offset, data_size, ptrs_size):
     p |= (data_size << 32 & 0xffff00000000)
     p |= (offset << 2 & 0xfffffffc)
     p |= STRUCT
-    return p
+    return _as_int64(p)
 
 def struct_data_size(ptr):
     return ptr>>32 & 0xffff
@@ -122,7 +128,7 @@ def new_list(ptr_offset, size_tag, item_count):
     p |= (size_tag << 32 & 0x700000000)
     p |= (ptr_offset << 2 & 0xfffffffc)
     p |= LIST
-    return p
+    return _as_int64(p)
 
 def list_size_tag(ptr):
     return ptr>>32 & 0x7
@@ -158,7 +164,7 @@ def new_far(landing_pad, offset, target):
     p |= (offset << 3 & 0xfffffff8)
     p |= (landing_pad << 2 & 0x4)
     p |= FAR
-    return p
+    return _as_int64(p)
 
 def far_landing_pad(ptr):
     return ptr>>2 & 1
-- 
2.43.0


From 7465b6ac46049f101ceb717b8e8abe75867009bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 07/42] fix: copy_pointer: check that the copied objects do not
 start before the buffer

---
 capnpy/segment/_copy_pointer.h  | 3 ++-
 capnpy/segment/_copy_pointer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.h b/capnpy/segment/_copy_pointer.h
index 1bc687c..3a402e0 100644
--- a/capnpy/segment/_copy_pointer.h
+++ b/capnpy/segment/_copy_pointer.h
@@ -7,7 +7,8 @@ static PyObject* RAISE_OUT_OF_BOUNDS(Py_ssize_t, Py_ssize_t);
     (Py_INCREF(Py_None), Py_None);                                      \
     {                                                                   \
         /* _PyString_GET_SIZE is included from _util.h */               \
-        if ((offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
+        if ((offset) < 0 ||                                             \
+            (offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
             /* raise and return error */                                \
             return RAISE_OUT_OF_BOUNDS(size, offset);                   \
         }                                                               \
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 9739110..6f5acf1 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -38,7 +38,7 @@ if not cython.compiled:
     # it. However, we can trick Cython by calling it _check_bounds and
     # 'rename' it later by modifying globals(). Bah.
     def _check_bounds(src, size, offset):
-        if offset+size > len(src.buf):
+        if offset < 0 or offset+size > len(src.buf):
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     def _read_int64_fast(src, offset):
-- 
2.43.0


From 6ba0806147e1f84c7014d38a3e2aeb802a6058d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 08/42] fix: copy_pointer: check that the items of a composite
 list fit in its body

---
 capnpy/segment/_copy_pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 6f5acf1..4d6a2ec 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -201,6 +201,8 @@ def _copy_list_composite(src, p, src_pos, dst, dst_pos):
     count = ptr.offset(tag)
     data_size = ptr.struct_data_size(tag)
     ptrs_size = ptr.struct_ptrs_size(tag)
+    if count < 0 or (data_size+ptrs_size) * count > total_words:
+        raise IndexError('Composite list out of bounds: %d items' % count)
     #
     # allocate the list and copy the whole body at once
     dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_COMPOSITE, total_words, body_length)
-- 
2.43.0


From c66aad4145b4bdca722c002f528f723ad40fb790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 09/42] fix: SegmentBuilder: raise if the buffer cannot be
 resized

---
 capnpy/segment/builder.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9d05030..9c2ea23 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -8,7 +8,7 @@ from capnpy.struct_ cimport Struct
 from capnpy.list cimport List, ItemType, StructItemType
 
 cdef extern from "Python.h":
-    int PyByteArray_Resize(object o, Py_ssize_t len)
+    int PyByteArray_Resize(object o, Py_ssize_t len) except -1
     char* PyByteArray_AS_STRING(object o)
 
 cdef extern from "_util.h":
-- 
2.43.0


From 2185f5922b3ccb61157309f7abe115a68cda2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 10/42] fix: list: writing a struct item of another size must
 stay inside its slot

---
 capnpy/list.py                  |  4 +++-
 capnpy/segment/_copy_pointer.py | 14 +++++++++++---
 capnpy/segment/builder.pxd      |  3 ++-
 capnpy/segment/builder.py       |  9 +++++++--
 capnpy/segment/builder.pyx      | 10 ++++++++--
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 5023da2..589e238 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -303,7 +303,9 @@ class StructItemType(ItemType):
             raise TypeError("Expected an object of type %s, got %s instead" %
                             (self.structcls.__name__, item.__class__.__name__))
         p = item._as_pointer(0)
-        builder.copy_inline_struct(pos, item._seg, p, 0)
+        # the size of item might be different than the one declared in the schema
+        builder.copy_inline_struct(pos, item._seg, p, 0,
+                                   self.static_data_size, self.static_ptrs_size)
 
 
 class TextItemType(ItemType):
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 4d6a2ec..b1632d4 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -124,8 +124,9 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
+               dst_data_size=long, dst_ptrs_size=long,
                data_size=long, ptrs_size=long, ds=long)
-def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
+def _copy_struct_inline(src, p, src_pos, dst, dst_pos, dst_data_size, dst_ptrs_size):
     # this does the same as _copy_struct, but instead of allocating space for
     # it, it fills an already-allocated space (useful e.g. for writing structs
     # into lists).
@@ -142,10 +143,17 @@ def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     data_size = ptr.struct_data_size(p)
     ptrs_size = ptr.struct_ptrs_size(p)
+    if dst_data_size == -1:
+        dst_data_size = data_size
+    if dst_ptrs_size == -1:
+        dst_ptrs_size = ptrs_size
     ds = data_size*8
     check_bounds(src, ds, src_pos)
-    dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
-    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
+    # copy only what fits in the already-allocated space
+    data_size = min(data_size, dst_data_size)
+    ptrs_size = min(ptrs_size, dst_ptrs_size)
+    dst.write_slice(dst_pos, src, src_pos, data_size*8) # copy data section
+    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+dst_data_size*8)
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index aeb48bd..35ecfe8 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -42,5 +42,6 @@ cdef class SegmentBuilder(object):
                             Py_ssize_t src_pos)
     cpdef copy_from_struct(self, Py_ssize_t dst_pos, type structcls, Struct value)
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos)
+                             long p, Py_ssize_t src_pos,
+                             long data_size=*, long ptrs_size=*)
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 968a0ed..e6bdefb 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -117,15 +117,20 @@ class SegmentBuilder(object):
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    def copy_inline_struct(self, dst_pos, src, p, src_pos):
+    def copy_inline_struct(self, dst_pos, src, p, src_pos, data_size=-1, ptrs_size=-1):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
              the struct directly into dst_pos
+
+          3. if data_size and ptrs_size are given, they are the size of the
+             space available at dst_pos: the sections are truncated if they
+             are bigger
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos,
+                                   data_size, ptrs_size)
 
     def copy_from_list(self, pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9c2ea23..8d0a1d8 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -185,15 +185,21 @@ cdef class SegmentBuilder(object):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos):
+                             long p, Py_ssize_t src_pos,
+                             long data_size=-1, long ptrs_size=-1):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
              the struct directly into dst_pos
+
+          3. if data_size and ptrs_size are given, they are the size of the
+             space available at dst_pos: the sections are truncated if they
+             are bigger
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos,
+                                   data_size, ptrs_size)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
-- 
2.43.0


From f701832f9f5e5c0ffe011daf93bec1c888f96758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 11/42] fix: SegmentBuilder: a failed allocation leaves the
 builder unchanged

---
 capnpy/segment/builder.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 8d0a1d8..59a86f5 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -125,9 +125,9 @@ cdef class SegmentBuilder(object):
         position of the newly allocated space.
         """
         cdef Py_ssize_t result = self.end
-        self.end += length
-        if self.end > self.length:
-            self._resize(self.end)
+        if result + length > self.length:
+            self._resize(result + length)
+        self.end = result + length
         return result
 
     cpdef Py_ssize_t alloc_struct(self, Py_ssize_t pos, long data_size, long ptrs_size):
-- 
2.43.0


From a7c829265a8340d9d484ecc00114a97aea86392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 12/42] fix: use Py_ssize_t for stream positions and sizes (a C
 int wrapped around at 2 GB)

---
 capnpy/buffered.pxd | 20 ++++++++++----------
 capnpy/filelike.pxd |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/capnpy/buffered.pxd b/capnpy/buffered.pxd
index d960142..714cdb2 100644
--- a/capnpy/buffered.pxd
+++ b/capnpy/buffered.pxd
@@ -3,16 +3,16 @@ from capnpy.filelike cimport FileLike
 
 cdef class BufferedStream(FileLike):
     cdef readonly bytes buf
-    cdef readonly int i
+    cdef readonly Py_ssize_t i
 
-    cdef _fillbuf(self, int size)
+    cdef _fillbuf(self, Py_ssize_t size)
     cdef bytes _readall(self)
     cpdef bytes _readchunk(self)
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=cython.Py_ssize_t, j=cython.Py_ssize_t)
+    cpdef bytes read(self, Py_ssize_t size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=cython.Py_ssize_t, j=cython.Py_ssize_t)
     cpdef bytes readline(self)
 
 
@@ -25,12 +25,12 @@ cdef class BufferedSocket(BufferedStream):
 
 cdef class StringBuffer(FileLike):
     cdef readonly bytes s
-    cdef readonly int i
+    cdef readonly Py_ssize_t i
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=cython.Py_ssize_t, j=cython.Py_ssize_t)
+    cpdef bytes read(self, Py_ssize_t size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=cython.Py_ssize_t, j=cython.Py_ssize_t)
     cpdef bytes readline(self)
 
-    cpdef int tell(self)
+    cpdef Py_ssize_t tell(self)
diff --git a/capnpy/filelike.pxd b/capnpy/filelike.pxd
index d6598f6..8e4e0ea 100644
--- a/capnpy/filelike.pxd
+++ b/capnpy/filelike.pxd
@@ -1,12 +1,12 @@
 cpdef FileLike as_filelike(object f)
 
 cdef class FileLike:
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, Py_ssize_t size=*)
     cpdef bytes readline(self)
 
 cdef class FileLikeAdapter(FileLike):
     cdef object _read
     cdef object _readline
 
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, Py_ssize_t size=*)
     cpdef bytes readline(self)
-- 
2.43.0


From 81ac1be07248e848fc49d99e9ddee96a5eb2415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 13/42] fix: do not truncate the sizes found in the message
 header to a C int

---
 capnpy/message.pxd | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/capnpy/message.pxd b/capnpy/message.pxd
index 39965af..f309517 100644
--- a/capnpy/message.pxd
+++ b/capnpy/message.pxd
@@ -14,15 +14,15 @@ cpdef loads(bytes buf, object payload_type)
 #cpdef load_all(FileLike f, object payload_type)
 
 
-@cython.locals(buf = bytes, n=int, length=int)
+@cython.locals(buf = bytes, n=long, length=long)
 cpdef Struct _load_message(FileLike f)
 
-@cython.locals(buf=bytes, message_size=int, message_lenght=int)
+@cython.locals(buf=bytes, message_size=long, message_lenght=long)
 cpdef _load_buffer_single_segment(FileLike f)
 
-@cython.locals(fmt=bytes, size=int, buf=bytes, bytes_read=int,
-                padding=int, message_lenght=int, offset=int, size=int)
-cpdef _load_buffer_multiple_segments(FileLike f, int n)
+@cython.locals(fmt=bytes, size=long, buf=bytes, bytes_read=long,
+                padding=long, message_lenght=long, offset=long)
+cpdef _load_buffer_multiple_segments(FileLike f, long n)
 
 @cython.locals(builder=SegmentBuilder, segment_size=long, segment_count=long,
                p=long, start=long, end=long)
-- 
2.43.0


From 59fff3b172ac5722ba3218c876a2ff0eb26c11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 14/42] fix: FileLikeAdapter.readline must call the wrapped
 readline

---
 capnpy/filelike.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/filelike.py b/capnpy/filelike.py
index 831ae11..0af2a40 100644
--- a/capnpy/filelike.py
+++ b/capnpy/filelike.py
@@ -53,4 +53,4 @@ class FileLikeAdapter(FileLike):
         return self._read(size)
 
     def readline(self):
-        return self._readline
+        return self._readline()
-- 
2.43.0


From e77c7c2c35bff1de56ddf51949566973d11f0583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 15/42] fix: a message header claiming 2**32 segments is
 truncated, not an assertion error

---
 capnpy/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index 84ba1b7..0722b3d 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -58,7 +58,8 @@ def _load_message(f):
         raise EOFError("No message to load")
     elif length < 4:
         raise ValueError("Malformed header: expected 4 bytes, got %d" % len(buf))
-    n = unpack_uint32(buf, 0) + 1
+    n = unpack_uint32(buf, 0)
+    n += 1 # not in the line above, uint32_t wraps around
     if n == 1:
         capnp_buf = _load_buffer_single_segment(f) # fast path
     else:
-- 
2.43.0


From e5d778e544f6648a9412ba32bf05e05ab241fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 16/42] fix: PyPy: a list is not hashable, as on CPython (equal
 lists had different hashes)

---
 capnpy/blob.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capnpy/blob.py b/capnpy/blob.py
index b9c9fab..80b1de4 100644
--- a/capnpy/blob.py
+++ b/capnpy/blob.py
@@ -107,6 +107,7 @@ class Blob(object):
 # Cython. See the comment above for more explanation
 try:
     Blob.__eq__ = Blob.__dict__['_cmp_eq']
+    Blob.__hash__ = None # as it is when __eq__ is defined inside the class
     Blob.__ne__ = Blob.__dict__['_cmp_ne']
     Blob.__lt__ = Blob.__dict__['_cmp_error']
     Blob.__le__ = Blob.__dict__['_cmp_error']
-- 
2.43.0


From ef768e8c223ab10f262eba33985c5a4a22a333e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 17/42] fix: two lists are equal if and only if their items are

Non-compact lists (whose end is not known) were compared with buf[start:-1], and
the bytes compared included the padding and the raw representation of the items.
---
 capnpy/list.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 589e238..414b3c7 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -82,6 +82,8 @@ class List(Blob):
         # comparing the memory without doing a full copy
         start = self._offset
         end = self._get_end()
+        if end == -1:
+            return None # not compact
         return self._seg.buf[start:end]
 
     def _equals(self, other):
@@ -91,9 +93,16 @@ class List(Blob):
             return list(self) == other
         if self.__class__ is not other.__class__:
             return False
-        return (self._item_count == other._item_count and
-                self._item_type.get_type() == other._item_type.get_type() and
-                self._get_slice() == other._get_slice())
+        if (self._item_count != other._item_count or
+            self._item_type.get_type() != other._item_type.get_type()):
+            return False
+        # fast path: two compact lists with the same bytes are equal. Nothing
+        # can be said if the bytes are different, or if we don't know them
+        if self._size_tag == other._size_tag:
+            buf = self._get_slice()
+            if buf is not None and buf == other._get_slice():
+                return True
+        return list(self) == list(other)
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
-- 
2.43.0


From 0de121ce985da11572cb919f5335846c443fa47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 18/42] fix: enum ordinals and union tags are unsigned

Unknown values >= 0x8000 came out as negative numbers, whose name was taken
from the end of __members__; a tag of 0xffff looked like an error to Cython.
---
 capnpy/compiler/field.py    | 2 +-
 capnpy/compiler/struct_.py  | 4 ++--
 capnpy/compiler/structor.py | 4 ++--
 capnpy/list.py              | 2 +-
 capnpy/schema_extended.py   | 4 ++--
 capnpy/struct_.pxd          | 1 +
 capnpy/struct_.py           | 8 +++++++-
 7 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index e561511..592238b 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -97,7 +97,7 @@ class Field__Slot:
         ns.newf = '_new'
         m.def_property(ns, name, """
             {ensure_union}
-            value = self._read_int16({offset})
+            value = self._read_uint16({offset})
             if {default_} != 0:
                 value = (value ^ {default_})
             return {enumcls}.{newf}(value)
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 432003c..48173b4 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -133,7 +133,7 @@ class Node__Struct:
             # are already fast
             ns.ww("""
                 cpdef long __which__(self) except -1:
-                    return self._read_int16({tag_offset})
+                    return self._read_uint16({tag_offset})
                 cpdef which(self):
                     return {compile_name}._new(self.__which__())
             """)
@@ -144,7 +144,7 @@ class Node__Struct:
             ns.i = i
             ns.ww("""
                 def is_{item}(self):
-                    return self._read_int16({tag_offset}) == {i}
+                    return self._read_uint16({tag_offset}) == {i}
             """)
         ns.w()
 
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index fc84d4f..854c7e6 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -68,10 +68,10 @@ class Structor(object):
             ns.offset = node.parent.union.offset
             ns.tagval = node.f.discriminantValue
             ns.tagname = self.m.py_field_name(node.f)
-            ns.ifmt  = 'ord(%r)' % Types.int16.fmt
+            ns.ifmt  = 'ord(%r)' % Types.uint16.fmt
             with ns.block('if {varname} is not _undefined:'):
                 ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_int16({offset}, {tagval})')
+                ns.w('builder.write_uint16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
diff --git a/capnpy/list.py b/capnpy/list.py
index 414b3c7..6175dd3 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -270,7 +270,7 @@ class PrimitiveItemType(ItemType):
 class EnumItemType(PrimitiveItemType):
 
     def __init__(self, enumcls):
-        PrimitiveItemType.__init__(self, Types.int16)
+        PrimitiveItemType.__init__(self, Types.uint16)
         self.enumcls = enumcls
 
     def get_type(self):
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index f553541..15a286e 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -140,7 +140,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'q'
         elif self.type.is_enum():
-            return 'h'
+            return 'H'
 
     def get_typename(self):
         if self.type.is_primitive():
@@ -148,7 +148,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'int64'
         elif self.type.is_enum():
-            return 'int16'
+            return 'uint16'
 
     def get_size(self):
         # XXX: even more hackish, we need a better way
diff --git a/capnpy/struct_.pxd b/capnpy/struct_.pxd
index d3d7d21..32d6c2e 100644
--- a/capnpy/struct_.pxd
+++ b/capnpy/struct_.pxd
@@ -24,6 +24,7 @@ cdef class Struct(Blob):
     cpdef _init_from_pointer(self, object buf, long offset, long p)
     cpdef _read_primitive(self, long offset, char ifmt)
     cpdef long _read_int16(self, long offset)
+    cpdef long _read_uint16(self, long offset)
     cpdef long _read_fast_ptr(self, long offset)
     cpdef _read_far_ptr(self, long offset)
     cpdef long _as_pointer(self, long offset)
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 82c2d27..63fcf56 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -167,7 +167,7 @@ class Struct(Blob):
     def __which__(self):
         if self.__tag_offset__ is None:
             raise TypeError("Cannot call which() on a non-union type")
-        return self._read_int16(self.__tag_offset__)
+        return self._read_uint16(self.__tag_offset__)
 
     def _as_pointer(self, offset):
         """
@@ -200,6 +200,12 @@ class Struct(Blob):
             return 0
         return self._seg.read_int16(self._data_offset+offset)
 
+    def _read_uint16(self, offset):
+        if offset >= self._data_size*8:
+            # reading bytes beyond _data_size is equivalent to read 0
+            return 0
+        return self._seg.read_uint16(self._data_offset+offset)
+
     def _read_bit(self, offset, bitmask):
         val = self._read_primitive(offset, Types.uint8.ifmt)
         return bool(val & bitmask)
-- 
2.43.0


From bf05e2324529b6a9161596669471ee2ed49e63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 19/42] fix: get_X() of a text or data union member checks the
 tag, like X

---
 capnpy/compiler/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 592238b..637bc90 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -111,6 +111,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_bytes({offset}, default_=b"")
         """)
         ns.w()
@@ -124,6 +125,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_unicode({offset}, default_=b"")
         """)
         ns.w()
@@ -137,6 +139,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_data({offset}, default_=b"")
         """)
         ns.w()
-- 
2.43.0


From 470fca6e95504ca63f559873371843f9008927e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 20/42] fix: wrong nullable groups are refused with an
 explanation

---
 capnpy/annotate_extended.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/capnpy/annotate_extended.py b/capnpy/annotate_extended.py
index 20a145f..f54899a 100644
--- a/capnpy/annotate_extended.py
+++ b/capnpy/annotate_extended.py
@@ -12,13 +12,13 @@ class nullable:
             raise ValueError('%s: %s' % (name, msg))
         #
         group = field.group.get_node(m)
-        if len(group.struct.fields) != 2:
-            error()
-        f_is_null, f_value = group.struct.fields
-        if (f_is_null.name != b'isNull' or
-            f_value.name != b'value'):
+        fields = group.struct.fields
+        if (len(fields) != 2 or
+            fields[0].name != b'isNull' or
+            fields[1].name != b'value'):
             error('nullable groups must have exactly two fields: '
                   '"isNull" and "value"')
+        f_is_null, f_value = fields
         if f_value.is_pointer():
             error('cannot use pointer types for nullable values. '
                   'Pointers are already nullable.')
-- 
2.43.0


From f0f1d70da9791fd118f801bfbc4d1be88702869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 21/42] fix: fields of any name and groups do not clash with
 the local variables of the generated constructors

---
 capnpy/compiler/struct_.py  | 17 ++++----
 capnpy/compiler/structor.py | 84 ++++++++++++++++++++-----------------
 2 files changed, 55 insertions(+), 46 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 48173b4..8e57877 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -161,11 +161,12 @@ class Node__Struct:
         ctor = Structor(m, self, self.struct.fields)
         ctor.emit()
         ns.w()
-        with ns.def_('__init__', ['self'] + ctor.params):
+        # the leading underscore avoids clashes with a field called e.g. "self"
+        with ns.def_('__init__', ['_self'] + ctor.params):
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, ctor.argnames)
             ns.w('_buf = {call}', call=call)
-            ns.w('self._init_from_buffer(_buf, 0, {data_size}, {ptrs_size})')
+            ns.w('_self._init_from_buffer(_buf, 0, {data_size}, {ptrs_size})')
         ns.w()
 
     def _emit_ctors_union(self, m, ns):
@@ -177,9 +178,9 @@ class Node__Struct:
                 self._emit_one_ctor_union(m, ns, fields, tag_field)
 
     def _emit_one_ctor_union(self, m, ns, fields, tag_field):
-        ## def new_foo(cls, x=0, y=0):
-        ##     buf = MyStruct.__new(x=x, y=y, foo=None)
-        ##     return cls.from_buffer(buf, 0, ..., ...)
+        ## def new_foo(_cls, x=0, y=0):
+        ##     _buf = MyStruct.__new(x=x, y=y, foo=None)
+        ##     return _cls.from_buffer(_buf, 0, ..., ...)
         tag_name = m.py_field_name(tag_field)
         name = 'new_' + tag_name
         fieldtree = FieldTree(m, fields, field_force_default=tag_field)
@@ -196,11 +197,11 @@ class Node__Struct:
                 argnames.append((m.py_field_name(f), '_undefined'))
         #
         ns.w('@classmethod')
-        with ns.def_(name, ['cls'] + params):
+        with ns.def_(name, ['_cls'] + params):
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, argnames)
-            ns.w('buf = {call}', call=call)
-            ns.w('return cls.from_buffer(buf, 0, {data_size}, {ptrs_size})')
+            ns.w('_buf = {call}', call=call)
+            ns.w('return _cls.from_buffer(_buf, 0, {data_size}, {ptrs_size})')
         ns.w()
 
     def _emit_repr(self, m):
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 854c7e6..50987d3 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -23,6 +23,12 @@ class Structor(object):
         self.ptrs_size = self.struct.pointerCount
         self.fieldtree = FieldTree(m, structnode)
         self.argnames, self.params = self.fieldtree.get_args_and_params()
+        # the fields of the groups are unpacked into local variables: use names
+        # which cannot clash with the params (e.g. "foo_x" could be the field
+        # "x" of the group "foo", or the field "fooX")
+        for i, node in enumerate(self.fieldtree.allnodes()):
+            if node.parent is not self.fieldtree:
+                node.varname = '_%d_%s' % (i, node.varname)
 
     def slot_offset(self, f):
         offset = f.slot.offset * f.slot.get_size()
@@ -34,14 +40,15 @@ class Structor(object):
         ## generate a constructor which looks like this
         ## @staticmethod
         ## def __new(x=0, y=0, z=None):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(24)
-        ##     builder.write_int64(pos + 0, x)
-        ##     builder.write_int64(pos + 8, y)
-        ##     builder.alloc_text(pos + 16, z)
-        ##     return builder.as_string()
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(24)
+        ##     _builder.write_int64(_pos + 0, x)
+        ##     _builder.write_int64(_pos + 8, y)
+        ##     _builder.alloc_text(_pos + 16, z)
+        ##     return _builder.as_string()
         #
-        # the parameters have the same order as fields
+        # the parameters have the same order as fields. The local variables
+        # start with an underscore so that they cannot clash with them
         code = self.m.code
         argnames = self.argnames
         if len(argnames) != len(set(argnames)):
@@ -50,28 +57,27 @@ class Structor(object):
         code.w('@staticmethod')
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
-            ns.cdef_var('_SegmentBuilder', 'builder')
-            ns.cdef_var('long', 'pos')
-            ns.w('builder = _SegmentBuilder()')
-            ns.w('pos = builder.allocate({length})')
+            ns.cdef_var('_SegmentBuilder', '_builder')
+            ns.cdef_var('long', '_pos')
+            ns.w('_builder = _SegmentBuilder()')
+            ns.w('_pos = _builder.allocate({length})')
             for union in self.fieldtree.all_unions():
-                ns.w('{union}__curtag = None', union=union.varname)
+                ns.w('_curtag_{offset} = None', offset=union.offset)
             for node in self.fieldtree.children:
                 self.handle_node(node)
-            ns.w('return builder.as_string()')
+            ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
         if node.f.is_part_of_union():
             ns = self.m.code.new_scope()
             ns.varname = node.varname
-            ns.union = node.parent.union.varname
             ns.offset = node.parent.union.offset
             ns.tagval = node.f.discriminantValue
             ns.tagname = self.m.py_field_name(node.f)
             ns.ifmt  = 'ord(%r)' % Types.uint16.fmt
             with ns.block('if {varname} is not _undefined:'):
-                ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_uint16({offset}, {tagval})')
+                ns.w('_curtag_{offset} = _check_tag(_curtag_{offset}, {tagname!r})')
+                ns.w('_builder.write_uint16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
@@ -105,9 +111,9 @@ class Structor(object):
     def handle_group(self, node):
         # def __init__(self, position, ...):
         #     ...
-        #     position_x, position_y = position
-        #     builder.write_...(..., position_x)
-        #     builder.write_...(..., position_y)
+        #     _1_position_x, _2_position_y = position
+        #     _builder.write_...(..., _1_position_x)
+        #     _builder.write_...(..., _2_position_y)
         #     ...
         #
         # 1. unpack the tuple into various indepented variables
@@ -125,55 +131,57 @@ class Structor(object):
         # def __init__(self, ..., x, ...):
         #     ...
         #     if x is None:
-        #         x_is_null = 1
-        #         x_value = 0
+        #         _1_x_is_null = 1
+        #         _2_x_value = 0
         #     else:
-        #         x_is_null = 0
-        #         x_value = x
+        #         _1_x_is_null = 0
+        #         _2_x_value = x
         #
-        value_node = node.children[1]
+        is_null_node, value_node = node.children
         assert value_node.f.name == b'value' # sanity check
         ns = self.m.code.new_scope()
         ns.fname = node.varname
+        ns.is_null = is_null_node.varname
+        ns.value = value_node.varname
         ns.value_default = value_node.default
         ns.ww(
         """
             if {fname} is None:
-                {fname}_is_null = 1
-                {fname}_value = {value_default}
+                {is_null} = 1
+                {value} = {value_default}
             else:
-                {fname}_is_null = 0
-                {fname}_value = {fname}
+                {is_null} = 0
+                {value} = {fname}
         """)
         for child in node.children:
             self.handle_node(child)
 
     def handle_text_bytes(self, node):
-        self.m.code.w('builder.alloc_text(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_text(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_text_unicode(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.alloc_text(pos + {offset}, _encode_maybe({arg}))')
+        ns.w('_builder.alloc_text(_pos + {offset}, _encode_maybe({arg}))')
 
     def handle_data(self, node):
-        self.m.code.w('builder.alloc_data(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_data(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_struct(self, node):
         ## @staticmethod
         ## def __new(x=0, y=<some struct>):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(16)
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(16)
         ##     ...
-        ##     builder.copy_from_struct(pos+8, SomeStruct, y)
+        ##     _builder.copy_from_struct(_pos+8, SomeStruct, y)
         ns = self.m.code.new_scope()
         ns.fname = node.varname
         ns.offset = self.slot_offset(node.f)
         ns.structname = node.f.slot.type.runtime_name(self.m)
-        ns.w('builder.copy_from_struct(pos + {offset}, {structname}, {fname})')
+        ns.w('_builder.copy_from_struct(_pos + {offset}, {structname}, {fname})')
 
     def handle_list(self, node):
         options = self.m.options(node.f)
@@ -182,7 +190,7 @@ class Structor(object):
         ns.offset = self.slot_offset(node.f)
         t = node.f.slot.type.list.elementType
         ns.list_item_type = t.list_item_type(self.m, options)
-        ns.w('builder.copy_from_list(pos + {offset}, {list_item_type}, {fname})')
+        ns.w('_builder.copy_from_list(_pos + {offset}, {list_item_type}, {fname})')
 
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
@@ -193,7 +201,7 @@ class Structor(object):
         #
         ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.write_{type}(pos + {offset}, {arg})')
+        ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_bool(self, node):
         ns = self.m.code.new_scope()
@@ -202,4 +210,4 @@ class Structor(object):
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
-        ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
+        ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
-- 
2.43.0


From 31aaf7c100c405b186c49663e111bc3ddd7b124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 22/42] fix: a field called property does not break the class
 in pure Python mode

---
 capnpy/compiler/module.py  | 3 ++-
 capnpy/compiler/request.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 60bf342..b7adf42 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -220,7 +220,8 @@ class ModuleGenerator(object):
                 with ns.block('def __get__(self):'):
                     ns.ww(src)
         else:
-            ns.w('@property')
+            # not @property, because the struct might have a field with that name
+            ns.w('@_property')
             with ns.block('def {name}(self):', name=name):
                 ns.ww(src)
         ns.w()
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 2167290..9a094c3 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -87,6 +87,8 @@ class RequestedFile:
             # _compile_pyx for a detailed explanation
             m.w('from %s import __compiler, __schema__' % m.tmpname)
         #
+        if not m.pyx:
+            m.w("_property = property")
         m.w('__capnpy_id__ = {id:#x}', id=self.id)
         m.w('__capnpy_version__ = {version!r}', version=capnpy.__version__)
         m.w('__capnproto_version__ = {version!r}', version=m.capnproto_version)
-- 
2.43.0


From 02e3e120b64c33f0648f2fa9b895e6033ea34c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 23/42] fix: an enum without enumerants is compiled to valid
 code

---
 capnpy/compiler/module.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index b7adf42..6575ae7 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -176,11 +176,7 @@ class ModuleGenerator(object):
         ns = self.code.new_scope()
         ns.name = compile_name
         ns.capnpy_id = capnpy_id
-        ns.members = "(%s,)" % (', '.join(items))
-        ns.prebuilt = [ns.format('{name}({i})', i=i)
-                       for i in range(len(items))]
-        ns.prebuilt = ', '.join(ns.prebuilt)
-        ns.prebuilt = ns.format('({prebuilt},)')
+        ns.members = "(%s)" % ''.join(['%s, ' % item for item in items])
         with ns.block("class {name}(_BaseEnum):"):
             ns.w("__capnpy_id__ = {capnpy_id}")
             ns.w("__members__ = {members}")
-- 
2.43.0


From cb52c6aad7e8ab39eb57172c5ef43c42e14a52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 24/42] fix: explicit defaults of float fields and infinite or
 NaN constants

---
 capnpy/compiler/field.py     | 10 +++++++++-
 capnpy/compiler/fieldtree.py |  3 +--
 capnpy/compiler/misc.py      |  9 +++++++++
 capnpy/compiler/node.py      |  3 +--
 capnpy/compiler/request.py   |  2 ++
 capnpy/compiler/structor.py  |  9 ++++++---
 capnpy/util.py               | 14 ++++++++++++++
 7 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 637bc90..672bba7 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -68,8 +68,16 @@ class Field__Slot:
 
     def _emit_primitive(self, m, ns, name):
         ns.typename = '_Types.%s' % self.slot.type.which()
-        ns.default_ = self.slot.defaultValue.as_pyobj()
+        ns.default_ = self.slot.defaultValue.as_pysrc()
         ns.ifmt = "ord(%r)" % self.slot.get_fmt()
+        if self.slot.hadExplicitDefault and (self.is_float32() or self.is_float64()):
+            ns.type = self.slot.get_typename()
+            m.def_property(ns, name, """
+                {ensure_union}
+                value = self._read_primitive({offset}, {ifmt})
+                return _{type}_xor(value, {default_})
+            """)
+            return
         m.def_property(ns, name, """
             {ensure_union}
             value = self._read_primitive({offset}, {ifmt})
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index ff4c3b9..0208ecc 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -115,8 +115,7 @@ class Node(AbstractNode):
         if f.is_part_of_union() and not self.force_default:
             return '_undefined'
         elif f.is_slot():
-            default_val = f.slot.defaultValue.as_pyobj()
-            return str(default_val)
+            return f.slot.defaultValue.as_pysrc()
         elif f.is_nullable(m):
             ann = f.is_nullable(m)
             name, f_is_null, f_value = ann.check(m)
diff --git a/capnpy/compiler/misc.py b/capnpy/compiler/misc.py
index 60ba886..eeac4d7 100644
--- a/capnpy/compiler/misc.py
+++ b/capnpy/compiler/misc.py
@@ -85,3 +85,12 @@ class Value:
         val_type = str(self.which())
         return getattr(self, val_type)
 
+    def as_pysrc(self):
+        """
+        The source code which evaluates to as_pyobj()
+        """
+        obj = self.as_pyobj()
+        if isinstance(obj, float):
+            return 'float(%r)' % repr(obj) # "inf" and "nan" are not literals
+        return repr(obj)
+
diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 65e3638..26d972c 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -173,8 +173,7 @@ class Node__Const:
             ns.constdecl = self._declare_list_const(val, item_type)
         else:
             # for primitive types
-            val = self.const.value.as_pyobj()
-            ns.constdecl = repr(val)
+            ns.constdecl = self.const.value.as_pysrc()
         #
         ns.w('{varname} = {constdecl}')
 
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 9a094c3..a86a17f 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -71,6 +71,8 @@ class RequestedFile:
         m.w("from capnpy.util import data_repr as _data_repr")
         m.w("from capnpy.util import float32_repr as _float32_repr")
         m.w("from capnpy.util import float64_repr as _float64_repr")
+        m.w("from capnpy.util import float32_xor as _float32_xor")
+        m.w("from capnpy.util import float64_xor as _float64_xor")
         m.w("from capnpy.util import extend_module_maybe as _extend_module_maybe")
         m.w("from capnpy.util import check_version as _check_version")
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 50987d3..34efde3 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -195,11 +195,14 @@ class Structor(object):
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
+        ns.type = node.f.slot.get_typename()
         if node.f.slot.hadExplicitDefault:
-            ns.default_ = node.f.slot.defaultValue.as_pyobj()
-            ns.w('{arg} ^= {default_}')
+            ns.default_ = node.f.slot.defaultValue.as_pysrc()
+            if node.f.is_float32() or node.f.is_float64():
+                ns.w('{arg} = _{type}_xor({arg}, {default_})')
+            else:
+                ns.w('{arg} ^= {default_}')
         #
-        ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
         ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
diff --git a/capnpy/util.py b/capnpy/util.py
index 9969389..86dee00 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -1,4 +1,5 @@
 import sys
+import struct
 import py
 import six
 
@@ -106,6 +107,19 @@ def data_repr(s):
     return u'"%s"' % s[1:-1]
 
 
+def float32_xor(a, b):
+    return _float_xor('<f', '<I', a, b)
+
+def float64_xor(a, b):
+    return _float_xor('<d', '<Q', a, b)
+
+def _float_xor(ffmt, ifmt, a, b):
+    # the fields are stored as the XOR with their default: for floats, it's
+    # done on the underlying bits
+    a, = struct.unpack(ifmt, struct.pack(ffmt, a))
+    b, = struct.unpack(ifmt, struct.pack(ffmt, b))
+    return struct.unpack(ffmt, struct.pack(ifmt, a ^ b))[0]
+
 try:
     from capnpy.floatrepr import float32_repr, float64_repr
 except ImportError:
-- 
2.43.0


From d166225bbc783f6dd26ba286edbf2763c7a33f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 25/42] fix: in-place hashes of text keys agree with the
 accessors

---
 capnpy/compiler/struct_.py | 8 ++++++--
 capnpy/struct_.py          | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 8e57877..f31b0df 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -315,10 +315,14 @@ class Node__Struct:
             for ns.i, fname in enumerate(fieldnames):
                 f = fields[fname]
                 ns.fname = m.py_field_name(f)
-                if f.is_text_bytes(m):
+                if f.is_part_of_union():
+                    # go through the accessor, which checks the tag
+                    ns.hash = self._fasthash_for_field(f)
+                    ns.w('h[{i}] = {hash}(self.{fname})')
+                elif f.is_text_bytes(m):
                     ns.offset = f.slot.offset * f.slot.get_size()
                     ns.w('h[{i}] = self._hash_text_bytes({offset})')
-                if f.is_text_unicode(m):
+                elif f.is_text_unicode(m):
                     ns.offset = f.slot.offset * f.slot.get_size()
                     ns.w('h[{i}] = self._hash_text_unicode({offset})')
                 else:
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 63fcf56..c53cd1d 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -261,7 +261,9 @@ class Struct(Blob):
     def _hash_text_unicode(self, offset, default_=hash(None)):
         # XXX: this is not a "fast hash" at all, it creates an unicode and the
         # computes the hash on it
-        u = self._read_text_unicode(offset, default_=b'')
+        u = self._read_text_unicode(offset)
+        if u is None:
+            return default_
         return hash(u)
 
     def _read_data(self, offset, default_=None, additional_size=0):
-- 
2.43.0


From 2a3e4180bceba25d361cc827cacff1b0e87e5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 26/42] fix: the versionCheck option of a file is obeyed

---
 capnpy/compiler/module.py  | 1 -
 capnpy/compiler/request.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 6575ae7..9cd6dc3 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -29,7 +29,6 @@ class ModuleGenerator(object):
         self.standalone = standalone
         self.default_options = default_options
         self.capnproto_version = capnproto_version
-        self.version_check = default_options.version_check
         self.code = Code(pyx=self.pyx)
         self.allnodes = {} # id -> node
         self.children = defaultdict(list) # nodeId -> nested nodes
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index a86a17f..9a04c1a 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -94,7 +94,7 @@ class RequestedFile:
         m.w('__capnpy_id__ = {id:#x}', id=self.id)
         m.w('__capnpy_version__ = {version!r}', version=capnpy.__version__)
         m.w('__capnproto_version__ = {version!r}', version=m.capnproto_version)
-        if m.version_check:
+        if m.options(filenode).version_check:
             m.w('_check_version(__name__, __capnpy_version__)')
         else:
             m.w('# schema compiled with --no-version-check, skipping the call to _check_version')
-- 
2.43.0


From d1cac45298a65e7a26d8b8918c04ba47d26a38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 27/42] fix: imported schemas with the same base name can be
 compiled

---
 capnpy/compiler/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 9cd6dc3..0cfa693 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -126,10 +126,12 @@ class ModuleGenerator(object):
     def register_import(self, fname):
         name = py.path.local(fname).purebasename
         name = name.replace('+', 'PLUS')
-        name = '_%s_capnp' % name
-        if name in self.importnames.values():
+        name = basename = '_%s_capnp' % name
+        i = 0
+        while name in self.importnames.values():
             # avoid name clashes
-            name = '%s_%s' % (name, len(self.filenames))
+            i += 1
+            name = '%s_%s' % (basename, i)
         self.importnames[fname] = name
         return name
 
-- 
2.43.0


From 01876501e10b96e7b3afdd13305d0f498ccada3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 28/42] fix: a failing import of a compiled schema does not
 leave modules in sys.modules

---
 capnpy/compiler/compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index b99615d..e6d8318 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -237,12 +237,12 @@ class DynamicCompiler(BaseCompiler):
         tmpmod.__dict__['__schema__'] = str(filename)
         sys.modules[m.tmpname] = tmpmod
         modname = 'capnpy.ext.%s' % m.modname
-        mod = import_from_path(modname, str(dll))
-        #
-        # clean-up the cluttered sys.modules
-        del sys.modules[mod.__name__]
-        del sys.modules[tmpmod.__name__]
-        return mod
+        try:
+            return import_from_path(modname, str(dll))
+        finally:
+            # clean-up the cluttered sys.modules
+            sys.modules.pop(modname, None)
+            sys.modules.pop(m.tmpname, None)
 
     def _get_filename(self, modname, importname, filename):
         n = (modname, importname, filename).count(None)
-- 
2.43.0


From 3928805c7f0bb0a8a0d8ce9bc2cad436b027395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 29/42] fix: compiled schemas with the same base name do not
 overwrite each other

---
 capnpy/compiler/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index e6d8318..8d68fef 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -87,8 +87,10 @@ class BaseCompiler(object):
         if self.annotate:
             import Cython.Compiler.Options
             Cython.Compiler.Options.annotate = True
+        # each file has its own build dir, else two schemas with the same
+        # basename would overwrite each other's dll
         dll = pyx_to_dll(str(pyxfile),
-                         pyxbuild_dir=str(self.tmpdir),
+                         pyxbuild_dir=str(pyxfile.dirpath()),
                          setup_args=dict(
                              include_dirs=self.include_dirs,
                          ))
-- 
2.43.0


From 3f7c4776bece448df49e6aaf73a571327e8d3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:07 +0000
Subject: [PATCH 30/42] fix: loading a compiled schema keeps modules of the
 same names in sys.modules

---
 capnpy/compiler/compiler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index 8d68fef..b2dc584 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -237,14 +237,18 @@ class DynamicCompiler(BaseCompiler):
         tmpmod = types.ModuleType(m.tmpname)
         tmpmod.__dict__['__compiler'] = self
         tmpmod.__dict__['__schema__'] = str(filename)
-        sys.modules[m.tmpname] = tmpmod
         modname = 'capnpy.ext.%s' % m.modname
+        before = [(name, sys.modules.get(name)) for name in (modname, m.tmpname)]
+        sys.modules[m.tmpname] = tmpmod
         try:
             return import_from_path(modname, str(dll))
         finally:
             # clean-up the cluttered sys.modules
-            sys.modules.pop(modname, None)
-            sys.modules.pop(m.tmpname, None)
+            for name, mod in before:
+                if mod is None:
+                    sys.modules.pop(name, None)
+                else:
+                    sys.modules[name] = mod
 
     def _get_filename(self, modname, importname, filename):
         n = (modname, importname, filename).count(None)
-- 
2.43.0


From 39de82591bd7b02ec0b3a588b760e7daeaa77aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:07 +0000
Subject: [PATCH 31/42] fix: schema files whose names are not identifiers can
 be compiled

---
 capnpy/compiler/compiler.py | 3 +--
 capnpy/compiler/module.py   | 3 ++-
 capnpy/compiler/request.py  | 5 +++--
 capnpy/compiler/util.py     | 7 +++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index b2dc584..b85525b 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -81,8 +81,7 @@ class BaseCompiler(object):
 
     def _pyx_to_dll(self, filename, m, src):
         from pyximport.pyxbuild import pyx_to_dll
-        pyxname = filename.new(ext='pyx')
-        pyxfile = self.tmpdir.join(pyxname).ensure(file=True)
+        pyxfile = self.tmpdir.join(filename, '%s.pyx' % m.modname).ensure(file=True)
         pyxfile.write(src)
         if self.annotate:
             import Cython.Compiler.Options
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 0cfa693..16150a2 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -6,7 +6,7 @@ from collections import defaultdict
 from pypytools.codegen import Code
 from six import PY3
 
-from capnpy.compiler.util import as_identifier
+from capnpy.compiler.util import as_identifier, identifier_from_filename
 from capnpy.convert_case import from_camel_case
 from capnpy import schema
 from capnpy import annotate
@@ -126,6 +126,7 @@ class ModuleGenerator(object):
     def register_import(self, fname):
         name = py.path.local(fname).purebasename
         name = name.replace('+', 'PLUS')
+        name = identifier_from_filename(name)
         name = basename = '_%s_capnp' % name
         i = 0
         while name in self.importnames.values():
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 9a04c1a..9037cbb 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -4,7 +4,7 @@ from six import PY3
 import capnpy
 from capnpy import schema
 from capnpy.type import Types
-from capnpy.compiler.util import as_identifier
+from capnpy.compiler.util import as_identifier, identifier_from_filename
 from capnpy import annotate
 
 
@@ -20,7 +20,8 @@ class CodeGeneratorRequest:
 class RequestedFile:
 
     def emit(self, m):
-        m.modname = py.path.local(as_identifier(self.filename)).purebasename
+        m.modname = identifier_from_filename(
+            py.path.local(as_identifier(self.filename)).purebasename)
         if not PY3:
             m.modname = m.modname.encode('utf-8')
         m.tmpname = '%s_tmp' % m.modname
diff --git a/capnpy/compiler/util.py b/capnpy/compiler/util.py
index b48a257..77e9d18 100644
--- a/capnpy/compiler/util.py
+++ b/capnpy/compiler/util.py
@@ -1,3 +1,4 @@
+import re
 import six
 
 def as_identifier(s):
@@ -29,3 +30,9 @@ def as_identifier(s):
         return decoded_s
     else:
         return s
+
+def identifier_from_filename(name):
+    """
+    Files can have names which are not valid identifiers, e.g. foo-bar.capnp
+    """
+    return re.sub(r'[^A-Za-z0-9_]|^(?=[0-9])', '_', name)
-- 
2.43.0


From d828f909b874358be0b8bf88645e928f14fad23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 32/42] fix: AnyPointer.is_struct/is_list/is_text look behind
 far pointers

---
 capnpy/anypointer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/capnpy/anypointer.py b/capnpy/anypointer.py
index e701396..9972b8f 100644
--- a/capnpy/anypointer.py
+++ b/capnpy/anypointer.py
@@ -9,16 +9,22 @@ class AnyPointer(object):
         self.struct_ = struct_
         self.offset = offset
 
-    def is_struct(self):
+    def _read_ptr(self):
         p = self.struct_._read_fast_ptr(self.offset)
+        if ptr.kind(p) == ptr.FAR:
+            _, p = self.struct_._read_far_ptr(self.offset)
+        return p
+
+    def is_struct(self):
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.STRUCT
 
     def is_list(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.LIST
 
     def is_text(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return (ptr.kind(p) == ptr.LIST and
                 ptr.list_size_tag(p) == ptr.LIST_SIZE_8)
 
-- 
2.43.0


From feb7c1b01d05f289b55a3f3fc85b986a83af2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 33/42] fix: pure Python mode: lists of types nested in a
 struct of an imported schema

---
 capnpy/compiler/node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 26d972c..95aa96a 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -85,7 +85,13 @@ class Node:
 
     def compile_name(self, m, prefix=''):
         if self.is_imported(m):
-            return self.runtime_name(m, sep='.' + prefix)
+            if prefix:
+                # a global of the other module, e.g. _other_capnp._Outer_Nested
+                parent = self.get_parent(m)
+                if parent.is_file():
+                    return '%s.%s%s' % (parent.shortname(m), prefix, self.shortname(m))
+                return '%s_%s' % (parent.compile_name(m, prefix), self.shortname(m))
+            return self.runtime_name(m)
         return prefix + self._fullname(m, '_')
 
     def runtime_name(self, m, sep='.'):
-- 
2.43.0


From 1c9ddce0323dfdc087d1594c78e435a5158dcd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:01 +0000
Subject: [PATCH 34/42] fix: shortrepr escapes backslashes and newlines of
 texts

---
 capnpy/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/util.py b/capnpy/util.py
index 86dee00..26441bb 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -90,6 +90,8 @@ def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
 def text_unicode_repr(s):
+    s = s.replace('\\', r'\\')
+    s = s.replace('\n', r'\n')
     s = s.replace('"', r'\"')
     s = s.replace("'", r"\'")
     return u'"%s"' % s
-- 
2.43.0


From f128a69909f99254b06e9d8561f1b8d0a5297a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 35/42] fix: shortrepr of lists of data, and of null texts in
 lists

---
 capnpy/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 6175dd3..ad9b45a 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -7,7 +7,8 @@ from capnpy.type import Types, BuiltinType
 from capnpy.blob import Blob, PYX
 from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe,
-                         encode_maybe, text_bytes_repr, text_unicode_repr)
+                         encode_maybe, text_bytes_repr, text_unicode_repr,
+                         data_repr)
 from capnpy.segment.endof import endof
 
 class List(Blob):
@@ -340,6 +341,10 @@ class TextItemType(ItemType):
         return lst._seg.read_str(p, offset, None, self.additional_size)
 
     def item_repr(self, item):
+        if item is None:
+            item = b'' # null pointers are shown as the default
+        if self.additional_size == 0:
+            return data_repr(item)
         return text_bytes_repr(item)
 
     def write_item(self, builder, pos, item):
@@ -362,6 +367,8 @@ class TextUnicodeItemType(TextItemType):
         return decode_maybe(res)
 
     def item_repr(self, item):
+        if item is None:
+            item = u'' # null pointers are shown as the default
         return text_unicode_repr(item)
 
     def write_item(self, builder, pos, item):
-- 
2.43.0


From be99ad736dad54e929070b16af07df741e7b8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 36/42] fix: enumerants and union members called "name"

---
 capnpy/enum.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/capnpy/enum.py b/capnpy/enum.py
index 894ceb0..40ef915 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -6,16 +6,21 @@ class BaseEnum(int):
 
     @property
     def name(self):
-        try:
-            return self.__members__[self]
-        except IndexError:
-            return 'unknown<%d>' % self
+        return member_name(self, self.__members__)
 
+    # don't use self.name: it might be an enumerant called "name"
     def __repr__(self):
-        return '<%s.%s: %d>' % (self.__class__.__name__, self.name, self)
+        name = member_name(self, self.__members__)
+        return '<%s.%s: %d>' % (self.__class__.__name__, name, self)
 
     def __str__(self):
-        return self.name
+        return member_name(self, self.__members__)
+
+def member_name(value, members):
+    try:
+        return members[value]
+    except IndexError:
+        return 'unknown<%d>' % value
 
 def fill_enum(cls):
     for i, member in enumerate(cls.__members__):
-- 
2.43.0


From 21e69282427de023bd59af028f2d84ff3e9bc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 37/42] fix: shortrepr writes enumerants with their capnp names

---
 capnpy/compiler/enum.py    | 3 ++-
 capnpy/compiler/module.py  | 7 ++++++-
 capnpy/compiler/request.py | 2 +-
 capnpy/compiler/struct_.py | 4 +++-
 capnpy/enum.py             | 8 ++++++++
 capnpy/list.py             | 4 ++++
 6 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/capnpy/compiler/enum.py b/capnpy/compiler/enum.py
index d070d64..392b220 100644
--- a/capnpy/compiler/enum.py
+++ b/capnpy/compiler/enum.py
@@ -14,7 +14,8 @@ class Node__Enum:
     def emit_declaration(self, m):
         name =  self.compile_name(m)
         items = [m.py_field_name(item) for item in self.get_enum_enumerants()]
-        m.declare_enum(name, self.shortname(m), self.id, items)
+        capnp_items = [m.capnp_field_name(item) for item in self.get_enum_enumerants()]
+        m.declare_enum(name, self.shortname(m), self.id, items, capnp_items)
         m.w('_{name}_list_item_type = _EnumItemType({name})', name=name)
         m.w()
 
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 16150a2..a4f4a09 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -171,9 +171,10 @@ class ModuleGenerator(object):
             return name + '_'
         return name
 
-    def declare_enum(self, compile_name, name, capnpy_id, items):
+    def declare_enum(self, compile_name, name, capnpy_id, items, capnp_items=None):
         # this method cannot go on Node__Enum because it's also called by
         # Node__Struct (for __tag__)
+        names = list(items)
         items = list(map(repr, items))
         ns = self.code.new_scope()
         ns.name = compile_name
@@ -182,6 +183,10 @@ class ModuleGenerator(object):
         with ns.block("class {name}(_BaseEnum):"):
             ns.w("__capnpy_id__ = {capnpy_id}")
             ns.w("__members__ = {members}")
+            if capnp_items is not None and capnp_items != names:
+                # the names which are used by shortrepr()
+                ns.w("__capnp_members__ = {capnp_members}",
+                     capnp_members=repr(tuple(capnp_items)))
             ns.w("@staticmethod")
             with ns.block('def _new(x):') as ns:
                 ns.w('return {name}(x)')
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 9037cbb..3c3436f 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -51,7 +51,7 @@ class RequestedFile:
         m.w("from capnpy.struct_ {cimport} Struct as _Struct")
         m.w("from capnpy.struct_ {cimport} check_tag as _check_tag")
         m.w("from capnpy.struct_ import undefined as _undefined")
-        m.w("from capnpy.enum import enum as _enum, fill_enum as _fill_enum")
+        m.w("from capnpy.enum import enum as _enum, fill_enum as _fill_enum, enum_repr as _enum_repr")
         m.w("from capnpy.enum import BaseEnum as _BaseEnum")
         m.w("from capnpy.type import Types as _Types")
         m.w("from capnpy.segment.segment {cimport} Segment as _Segment")
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index f31b0df..4f01e35 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -253,8 +253,10 @@ class Node__Struct:
             return ns.format('_float32_repr(self.{pyname})')
         elif f.is_float64():
             return ns.format('_float64_repr(self.{pyname})')
-        if f.is_primitive() or f.is_enum():
+        if f.is_primitive():
             return ns.format('self.{pyname}')
+        elif f.is_enum():
+            return ns.format('_enum_repr(self.{pyname})')
         elif f.is_bool():
             return ns.format('str(self.{pyname}).lower()')
         elif f.is_void():
diff --git a/capnpy/enum.py b/capnpy/enum.py
index 40ef915..9f98b89 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -3,6 +3,7 @@ from capnpy.util import magic_setattr
 class BaseEnum(int):
     __slots__ = ()
     __members__ = ()
+    __capnp_members__ = None # the names used by the schema, if different
 
     @property
     def name(self):
@@ -22,6 +23,13 @@ def member_name(value, members):
     except IndexError:
         return 'unknown<%d>' % value
 
+def enum_repr(value):
+    """
+    The name of the enumerant as it is written in the schema: this is what
+    shortrepr() uses
+    """
+    return member_name(value, value.__capnp_members__ or value.__members__)
+
 def fill_enum(cls):
     for i, member in enumerate(cls.__members__):
         value = cls(i)
diff --git a/capnpy/list.py b/capnpy/list.py
index ad9b45a..fc75e11 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -9,6 +9,7 @@ from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe,
                          encode_maybe, text_bytes_repr, text_unicode_repr,
                          data_repr)
+from capnpy.enum import enum_repr
 from capnpy.segment.endof import endof
 
 class List(Blob):
@@ -281,6 +282,9 @@ class EnumItemType(PrimitiveItemType):
         value = PrimitiveItemType.read_item(self, lst, i)
         return self.enumcls(value)
 
+    def item_repr(self, item):
+        return enum_repr(item)
+
 
 class StructItemType(ItemType):
 
-- 
2.43.0


From a6898816db7e27fdd88644eb61042ba9b2877473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 38/42] fix: the ids of $Py.group groups do not depend on
 hash()

---
 capnpy/schema_extended.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index 15a286e..6d53076 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -186,10 +186,12 @@ class Node__Struct(Node):
         displayNamePrefixLength = len(parent.displayName) + 1
         scopeId = parent_id
 
-        node_id = parent_id + hash(field_void.name) % 10000
-        # Need a better way to get a UID.
-        # Todo: Use proper md5
-        assert node_id not in m.allnodes
+        # the group has no id of its own: take the first one which is free. Note
+        # that we cannot use hash(field_void.name), because it changes at every
+        # run and it might collide
+        node_id = parent_id
+        while node_id in m.allnodes:
+            node_id = (node_id + 1) % 2**64
 
         # There shouldn't be any unions inside the group.
         # So do not have to deal with discriminantCount
-- 
2.43.0


From 1ede37d6f47e1c7576daf3332066eb08046ab404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 39/42] fix: capnpy decode stops at the end of the stream only

---
 capnpy/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/__main__.py b/capnpy/__main__.py
index 812f9f8..a889685 100644
--- a/capnpy/__main__.py
+++ b/capnpy/__main__.py
@@ -57,7 +57,7 @@ def decode(args, options):
         while True:
             try:
                 obj = load(f, cls)
-            except ValueError:
+            except EOFError:
                 break
             print(obj.shortrepr())
             i += 1
-- 
2.43.0


From 9b4621c71e057d140c638b338eb7076460a912f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:10 +0000
Subject: [PATCH 40/42] fix: shortrepr() of structs whose union has a
 $Py.nullable group raised AttributeError (is__name)

---
 capnpy/compiler/struct_.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 4f01e35..cb85892 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -216,6 +216,7 @@ class Node__Struct:
             ns.w('parts = []')
             for f in fields:
                 ns.pyname = m.py_field_name(f)
+                ns.is_name = 'is_' + ns.pyname
                 ns.capname = m.capnp_field_name(f)
                 if f.is_nullable(m):
                     # if 'x' is nullable, obj.x returns either None or the
@@ -236,12 +237,12 @@ class Node__Struct:
                     # it's null, we don't show anything; see
                     # test_union_set_but_null_pointer for examples.
                     ns.ww("""
-                    if self.is_{pyname}() and (self.has_{pyname}() or
+                    if self.{is_name}() and (self.has_{pyname}() or
                                               not {is_default_field}):
                         {append}
                     """)
                 elif f.is_part_of_union():
-                    ns.w("if self.is_{pyname}(): {append}")
+                    ns.w("if self.{is_name}(): {append}")
                 elif f.is_pointer():
                     ns.w("if self.has_{pyname}(): {append}")
                 else:
-- 
2.43.0


From ac5496a734261389b716ec71ff176ca48f2a8d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:50 +0000
Subject: [PATCH 41/42] fix: $Py.nullable groups could not be read when
 convertCase is off (is_null)

---
 capnpy/annotate_extended.py | 2 +-
 capnpy/compiler/field.py    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/capnpy/annotate_extended.py b/capnpy/annotate_extended.py
index f54899a..6cd81b2 100644
--- a/capnpy/annotate_extended.py
+++ b/capnpy/annotate_extended.py
@@ -12,7 +12,7 @@ class nullable:
             raise ValueError('%s: %s' % (name, msg))
         #
         group = field.group.get_node(m)
-        fields = group.struct.fields
+        fields = group.get_struct_fields()
         if (len(fields) != 2 or
             fields[0].name != b'isNull' or
             fields[1].name != b'value'):
diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 672bba7..6c89719 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -238,13 +238,15 @@ class Field__Group:
         ns.name = name
         nullable = self.is_nullable(m)
         if nullable:
-            nullable.check(m)
+            _, f_is_null, f_value = nullable.check(m)
+            ns.is_null = m.py_field_name(f_is_null)
+            ns.value = m.py_field_name(f_value)
             ns.privname = '_' + name
             m.def_property(ns, name, """
                 g = self.{privname}
-                if g.is_null:
+                if g.{is_null}:
                     return None
-                return g.value
+                return g.{value}
             """)
             name = ns.privname
         #
-- 
2.43.0


From 3b656bedd9a5f358042aef7781ce1af4ddf77d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:28 +0000
Subject: [PATCH 42/42] fix: structs without fields could not be compiled with
 $Py.key("*")

---
 capnpy/compiler/struct_.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index cb85892..09fc8ff 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -280,8 +280,9 @@ class Node__Struct:
         if ann is None:
             return
         assert ann.annotation.value.is_text()
-        fieldmap = {f.name: f for f in self.get_struct_fields()}
-        allfields = [f.name for f in self.get_struct_fields()]
+        allfields = self.get_struct_fields() or []
+        fieldmap = {f.name: f for f in allfields}
+        allfields = [f.name for f in allfields]
         # we expect keyfields to be something like "x, y, z" or "*"
         txt = ann.annotation.value.text.strip()
         if txt == b'*':
@@ -297,23 +298,23 @@ class Node__Struct:
         #
         ns = m.code.new_scope()
         fields = [fieldmap[fname] for fname in fieldnames]
-        ns.key = ', '.join(['self.%s' % m.py_field_name(f) for f in fields])
+        ns.key = ' '.join(['self.%s,' % m.py_field_name(f) for f in fields])
         ns.w()
         ns.ww("""
             def _key(self):
-                return ({key},)
-        """) # the trailing comma is to ensure a tuple even if there is a single field
+                return ({key})
+        """) # the trailing commas ensure a tuple even if there is a single field
         #
         if m.pyx:
             self._emit_fash_hash(m, fieldnames)
 
     def _emit_fash_hash(self, m, fieldnames):
         # emit a specialized, fast __hash__.
-        fields = {f.name: f for f in self.get_struct_fields()}
+        fields = {f.name: f for f in self.get_struct_fields() or []}
         m.w()
         with m.code.block('def __hash__(self):') as ns:
             ns.n = len(fieldnames)
-            ns.w('cdef long h[{n}]')
+            ns.w('cdef long h[{size}]', size=max(len(fieldnames), 1))
             # compute the hash of each field
             for ns.i, fname in enumerate(fieldnames):
                 f = fields[fname]
-- 
2.43.0

