"""C05/C22/C01: pointers of unknown type (AnyPointer fields, method parameters)."""
from c05_pointers import u, s30, kind, near, word, wf, resolve, element_bytes


def anyptr(s, off):
    return repo('capnpy.anypointer:AnyPointer')(s, off)


class any_kind:
    prop = 'C05,C22,C06'
    cases = (('struct',), ('list',), ('text',), ('data',))
    def spec(what, s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        at, p = resolve(s, off)
        requires(p != 0)
        if what == 'struct':
            return kind(p) == 0
        if what == 'list':
            return kind(p) == 1
        return kind(p) == 1 and u(p, 32, 3) == 2
    def impl(what, s, off):
        a = anyptr(s, off)
        if what == 'struct':
            return a.is_struct()
        if what == 'list':
            return a.is_list()
        if what == 'text':
            return a.is_text()
        return a.is_data()


class any_kind_null:
    prop = 'C22,C06'
    cases = (('list',), ('text',), ('data',))
    def spec(what, s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        requires(off >= 8 * s._ptrs_size or word(s._seg, s._ptrs_offset + off) == 0)
        return False
    def impl(what, s, off):
        a = anyptr(s, off)
        if what == 'list':
            return a.is_list()
        if what == 'text':
            return a.is_text()
        return a.is_data()


class any_data:
    prop = 'C05,C06,C22,C01'
    cases = (('data', 0), ('text', -1), ('unicode', -1))
    def spec(what, extra, s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        b = s._seg.read_str(p, at, None, extra)
        if what == 'unicode' and b is not None:
            return b.decode('utf-8')
        return b
    def impl(what, extra, s, off):
        a = anyptr(s, off)
        if what == 'data':
            return a.as_data()
        if what == 'unicode':
            return a.as_text_unicode()
        return a.as_text_bytes()


class any_text_refused:
    prop = 'C22'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        raises()
    def impl(s, off):
        return anyptr(s, off).as_text()


class any_struct:
    prop = 'C05,C06,C01'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        if p == 0:
            return None
        if kind(p) != 0:
            raises()
        start = near(p, at)
        d = u(p, 32, 16)
        n = u(p, 48, 16)
        if start + 8*d + 8*n > len(s._seg.buf):
            raises()
        return s._seg, start, start + 8*d, d, n
    def impl(s, off):
        r = anyptr(s, off).as_struct(repo('capnpy.struct_:Struct'))
        if r is None:
            return None
        return r._seg, r._data_offset, r._ptrs_offset, r._data_size, r._ptrs_size


class any_list:
    prop = 'C05,C06,C01,C22'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20', it: 'capnpy.list:ItemType'):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        if p == 0:
            return None
        if kind(p) != 1:
            raises()
        start = near(p, at)
        tag = u(p, 32, 3)
        n = u(p, 35, 29)
        if tag == 7:
            w = word(s._seg, start)
            return (s._seg, start, it, 7, s30(u(w, 2, 30)), 8 * (u(w, 32, 16) + u(w, 48, 16)), 8, w)
        return (s._seg, start, it, tag, n, element_bytes(tag), 0, -1)
    def impl(s, off, it):
        l = anyptr(s, off).as_list(it)
        if l is None:
            return l
        return (l._seg, l._offset, l._item_type, l._size_tag, l._item_count, l._item_length,
                l._item_offset, l._tag)
