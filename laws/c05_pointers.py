"""C05/C06/C22: struct fields, far pointers, short and long sections."""

def u(p, lo, n):
    return (p // 2**lo) % 2**n

def s30(x):
    return x - 2**30 if x >= 2**29 else x

def kind(p):
    return p % 4

def near(p, at):
    return at + 8 + 8 * s30(u(p, 2, 30))

def word(seg, at):
    if at < 0 or at > len(seg.buf) - 8:
        raise IndexError
    return rd(seg.buf, 'q', at)

def wf(s):
    """what _init_from_buffer establishes (law init below)"""
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(-2**40 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._ptrs_offset == s._data_offset + 8 * s._data_size)

def segstart(seg, n):
    offs = seg.segment_offsets
    return offs[n]

def landing(seg, at):
    """(position, word) of the object behind the far pointer stored at `at`"""
    if not isinstance(seg, repo('capnpy.segment.segment:MultiSegment')):
        raises()
    p = word(seg, at)
    pad = segstart(seg, u(p, 32, 32)) + 8 * u(p, 3, 29)
    if u(p, 2, 1) == 0:
        return pad, word(seg, pad)
    p2 = word(seg, pad)
    tag = word(seg, pad + 8)
    if kind(p2) != 2 or u(p2, 2, 1) != 0 or s30(u(tag, 2, 30)) != 0:
        raises()
    return segstart(seg, u(p2, 32, 32)) + 8 * u(p2, 3, 29) - 8, tag

def resolve(s, off):
    """(position, word) of pointer field at byte offset `off` of the pointer section"""
    if off >= 8 * s._ptrs_size:
        return off, 0
    at = s._ptrs_offset + off
    p = word(s._seg, at)
    if kind(p) == 2:
        return s._seg.read_far_ptr(at)
    return at, p


class far_pointer:
    prop = 'C05,C01'
    def spec(seg: 'capnpy.segment.segment:Segment', at: 'i40'):
        return landing(seg, at)
    def impl(seg, at):
        return seg.read_far_ptr(at)


class struct_init:
    frame = False
    prop = 'C01,C06'
    def spec(s: 'capnpy.struct_:Struct', seg: 'capnpy.segment.segment:Segment', at: 'i40', d: 'u16', p: 'u16'):
        if at + 8*d + 8*p > len(seg.buf):
            raises()
        return at, at + 8*d, d, p, seg
    def impl(s, seg, at, d, p):
        s._init_from_buffer(seg, at, d, p)
        return s._data_offset, s._ptrs_offset, s._data_size, s._ptrs_size, s._seg


class struct_from_buffer:
    prop = 'C01,C06,C13'
    def spec(seg: 'capnpy.segment.segment:Segment', at: 'i40', d: 'u16', p: 'u16'):
        if at + 8*d + 8*p > len(seg.buf):
            raises()
        return at, at + 8*d, d, p, seg
    def impl(seg, at, d, p):
        s = repo('capnpy.struct_:Struct').from_buffer(seg, at, d, p)
        return s._data_offset, s._ptrs_offset, s._data_size, s._ptrs_size, s._seg


class struct_init_pointer:
    frame = False
    prop = 'C01,C05'
    def spec(s: 'capnpy.struct_:Struct', seg: 'capnpy.segment.segment:Segment', at: 'i40', p: 'i64'):
        if kind(p) != 0:
            raises()
        start = near(p, at)
        d = u(p, 32, 16)
        n = u(p, 48, 16)
        if start + 8*d + 8*n > len(seg.buf):
            raises()
        return start, start + 8*d, d, n, seg
    def impl(s, seg, at, p):
        s._init_from_pointer(seg, at, p)
        return s._data_offset, s._ptrs_offset, s._data_size, s._ptrs_size, s._seg


class read_primitive:
    prop = 'C01,C04,C06'
    cases = (('q', 8), ('Q', 8), ('d', 8), ('f', 4), ('i', 4), ('I', 4), ('h', 2), ('H', 2),
             ('b', 1), ('B', 1))
    def spec(fmt, width, s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        if off >= 8 * s._data_size:
            return 0
        at = s._data_offset + off
        if at < 0 or at > len(s._seg.buf) - width:
            raises()
        return rd(s._seg.buf, fmt, at)
    def impl(fmt, width, s, off):
        return s._read_primitive(off, ord(fmt))


class read_int16:
    prop = 'C01,C04,C06'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        if off >= 8 * s._data_size:
            return 0
        at = s._data_offset + off
        if at < 0 or at > len(s._seg.buf) - 2:
            raises()
        return rd(s._seg.buf, 'h', at)
    def impl(s, off):
        return s._read_int16(off)


class read_bit:
    prop = 'C01,C04,C06'
    cases = ((0,), (1,), (2,), (3,), (4,), (5,), (6,), (7,))
    def spec(bit, s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        if off >= 8 * s._data_size:
            return False
        at = s._data_offset + off
        if at < 0 or at > len(s._seg.buf) - 1:
            raises()
        return (rd(s._seg.buf, 'B', at) // 2**bit) % 2 == 1
    def impl(bit, s, off):
        return s._read_bit(off, 1 << bit)


class fast_ptr:
    prop = 'C01,C06'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        if off >= 8 * s._ptrs_size:
            return 0
        return word(s._seg, s._ptrs_offset + off)
    def impl(s, off):
        return s._read_fast_ptr(off)


class far_ptr:
    prop = 'C05'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        requires(off < 8 * s._ptrs_size)
        return s._seg.read_far_ptr(s._ptrs_offset + off)
    def impl(s, off):
        return s._read_far_ptr(off)


class read_struct:
    prop = 'C05,C06,C01'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        if p == 0:
            return None
        if kind(p) != 0:
            raises()
        start = near(p, at)
        d = u(p, 32, 16)
        n = u(p, 48, 16)
        if start + 8*d + 8*n > len(s._seg.buf):
            raises()
        return s._seg, start, start + 8*d, d, n
    def impl(s, off):
        r = s._read_struct(off, repo('capnpy.struct_:Struct'))
        if r is None:
            return None
        return r._seg, r._data_offset, r._ptrs_offset, r._data_size, r._ptrs_size


def element_bytes(tag):
    if tag == 0:
        return 0
    if tag == 2:
        return 1
    if tag == 3:
        return 2
    if tag == 4:
        return 4
    if tag == 1:
        return -1
    return 8


class list_init:
    frame = False
    prop = 'C01,C06,C18'
    def spec(l: 'capnpy.list:List', seg: 'capnpy.segment.segment:Segment', at: 'i40', tag: 'u3', n: 'u29',
             it: 'capnpy.list:ItemType'):
        if tag == 7:
            w = word(seg, at)
            return (seg, at, it, 7, s30(u(w, 2, 30)), 8 * (u(w, 32, 16) + u(w, 48, 16)), 8, w)
        return (seg, at, it, tag, n, element_bytes(tag), 0, -1)
    def impl(l, seg, at, tag, n, it):
        l._init_from_buffer(seg, at, tag, n, it)
        return (l._seg, l._offset, l._item_type, l._size_tag, l._item_count, l._item_length,
                l._item_offset, l._tag)


class read_list:
    prop = 'C05,C06,C01,C22'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20', it: 'capnpy.list:ItemType', default):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        if p == 0:
            return default
        if kind(p) != 1:
            raises()
        start = near(p, at)
        tag = u(p, 32, 3)
        n = u(p, 35, 29)
        if tag == 7:
            w = word(s._seg, start)
            return (s._seg, start, it, 7, s30(u(w, 2, 30)), 8 * (u(w, 32, 16) + u(w, 48, 16)), 8, w)
        return (s._seg, start, it, tag, n, element_bytes(tag), 0, -1)
    def impl(s, off, it, default):
        l = s._read_list(off, it, default)
        if l is default:
            return l
        return (l._seg, l._offset, l._item_type, l._size_tag, l._item_count, l._item_length,
                l._item_offset, l._tag)


class read_data:
    prop = 'C05,C06,C22,C01'
    cases = (('data', 0), ('text', -1))
    def spec(what, extra, s: 'capnpy.struct_:Struct', off: 'u20', default: 'bytes'):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        return s._seg.read_str(p, at, default, extra)
    def impl(what, extra, s, off, default):
        if what == 'data':
            return s._read_data(off, default)
        return s._read_text_bytes(off, default)


class read_data_nodefault:
    prop = 'C05,C06,C22'
    cases = (('data', 0), ('text', -1), ('unicode', -1))
    def spec(what, extra, s: 'capnpy.struct_:Struct', off: 'u20'):
        wf(s)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        b = s._seg.read_str(p, at, None, extra)
        if what == 'unicode' and b is not None:
            return b.decode('utf-8')
        return b
    def impl(what, extra, s, off):
        if what == 'data':
            return s._read_data(off)
        if what == 'unicode':
            return s._read_text_unicode(off)
        return s._read_text_bytes(off)


class read_text_unicode:
    prop = 'C05,C06,C22,C01'
    def spec(s: 'capnpy.struct_:Struct', off: 'u20', default: 'bytes'):
        wf(s)
        requires(default is not None)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        return s._seg.read_str(p, at, default, -1).decode('utf-8')
    def impl(s, off, default):
        return s._read_text_unicode(off, default)


class hash_data:
    prop = 'C05,C06,C10,C01'
    cases = (('data', 0), ('text', -1))
    def spec(what, extra, s: 'capnpy.struct_:Struct', off: 'u20', default: 'i64'):
        wf(s)
        requires(default != -1)
        at, p = resolve(s, off)
        requires(-2**40 <= at and at <= 2**40)
        return s._seg.hash_str(p, at, default, extra)
    def impl(what, extra, s, off, default):
        if what == 'data':
            return s._hash_data(off, default)
        return s._hash_text_bytes(off, default)
