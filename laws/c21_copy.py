"""C21/C02/C01: the deep copy of a pointer into a builder."""

def u(p, lo, n):
    return (p // 2**lo) % 2**n

def s30(x):
    return x - 2**30 if x >= 2**29 else x

def near(p, at):
    return at + 8 + 8 * s30(u(p, 2, 30))

def word(seg, at):
    if at < 0 or at > len(seg.buf) - 8:
        raise IndexError
    return rd(seg.buf, 'q', at)

def inside(seg, at, n):
    """the n bytes at `at` are in the source"""
    if at < 0 or at + n > len(seg.buf):
        raises()

def setup(b, pos, e):
    """e bytes are allocated, 8 of them at pos for a pointer"""
    setend(b, e)
    requires(0 <= pos and pos <= e - 8)
    if compiled():
        requires(b.length <= 2**40)

def struct_word(pos, at, d, n):
    """struct pointer stored at pos, pointing to at (both in words)"""
    return 4 * ((at - pos - 1) % 2**30) + 2**32 * d + 2**48 * n

def list_word(pos, at, tag, n):
    return 1 + 4 * ((at - pos - 1) % 2**30) + 2**32 * tag + 2**35 * n

def pointers(n, seg, at, b, to):
    """copy n pointers; null ones stay null"""
    for j in range(n):
        w = word(seg, at + 8*j)
        if w != 0:
            recurse('copy_pointer', seg, w, at + 8*j, b, to + 8*j)


class copy_struct:
    prop = 'C21,C02,C01'
    recursive = 'copy_pointer'
    track = ('store', 'recurse')
    cases = ((0,), (1,), (2,), (3,))
    def spec(n, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30', d: 'u16'):
        setup(b, 8*k, 8*e8)
        if d + n == 0:
            store(b, 8*k, 'Q', 4 * (2**30 - 1))
            return
        start = near(4*o, at)
        inside(seg, start, 8*d + 8*n)
        e = grow(b, 8*d + 8*n)
        store(b, 8*k, 'Q', struct_word(k, e8, d, n))
        copy(b, e, seg.buf, start, 8*d)
        pointers(n, seg, start + 8*d, b, e + 8*d)
    def impl(n, b, k, e8, seg, at, o, d):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 4*o + 2**32 * d + 2**48 * n, at)


class copy_far:
    """a far pointer is replaced by the object it points to"""
    prop = 'C21,C05'
    recursive = 'copy_pointer'
    opaque = ('BaseSegment.read_far_ptr', 'Segment.read_far_ptr', 'MultiSegment.read_far_ptr')
    track = ('store', 'recurse')
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', x: 'i62'):
        setup(b, 8*k, 8*e8)
        at2, p2 = seg.read_far_ptr(at)
        recurse('copy_pointer', seg, p2, at2, b, 8*k)
    def impl(b, k, e8, seg, at, x):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 4*x + 2, at)


class copy_primitive_list:
    prop = 'C21,C02,C01'
    track = ('store', 'recurse')
    cases = ((0, 0), (2, 8), (3, 16), (4, 32), (5, 64), (1, 1))
    def spec(tag, bits, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30', n: 'u28'):
        setup(b, 8*k, 8*e8)
        size = (bits * n + 7) // 8
        start = near(4*o, at)
        if size == 0 and (start < 0 or start > len(seg.buf)):
            undefined()
        inside(seg, start, size)
        e = grow(b, (size + 7) // 8 * 8)
        store(b, 8*k, 'Q', list_word(k, e8, tag, n))
        copy(b, e, seg.buf, start, size)
    def impl(tag, bits, b, k, e8, seg, at, o, n):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 1 + 4*o + 2**32 * tag + 2**35 * n, at)


class copy_pointer_list:
    prop = 'C21,C02,C01'
    recursive = 'copy_pointer'
    track = ('store', 'recurse')
    cases = ((0,), (1,), (2,), (3,))
    def spec(n, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30'):
        setup(b, 8*k, 8*e8)
        start = near(4*o, at)
        if n == 0 and (start < 0 or start > len(seg.buf)):
            undefined()
        inside(seg, start, 8*n)
        e = grow(b, 8*n)
        store(b, 8*k, 'Q', list_word(k, e8, 6, n))
        pointers(n, seg, start, b, e)
    def impl(n, b, k, e8, seg, at, o):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 1 + 4*o + 2**32 * 6 + 2**35 * n, at)


class copy_composite_list:
    """the tag and the data sections are copied; every pointer of every item is copied"""
    prop = 'C21,C02,C01'
    recursive = 'copy_pointer'
    track = ('store', 'recurse')
    cases = ((0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1))
    def spec(count, ptrs, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30', words: 'u28', d: 'u16'):
        setup(b, 8*k, 8*e8)
        start = near(4*o, at)
        inside(seg, start, 8*words + 8)
        given(seg.buf, start, 4 * count + 2**32 * d + 2**48 * ptrs)
        if (d + ptrs) * count > words:
            raises()
        e = grow(b, 8*words + 8)
        store(b, 8*k, 'Q', list_word(k, e8, 7, words))
        copy(b, e, seg.buf, start, 8*words + 8)
        for i in range(count):
            off = 8 + (8*d + 8*ptrs) * i + 8*d
            pointers(ptrs, seg, start + off, b, e + off)
    def impl(count, ptrs, b, k, e8, seg, at, o, words, d):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 1 + 4*o + 2**32 * 7 + 2**35 * words, at)


class copy_any_struct:
    """whatever the source holds: only memory of the two buffers is touched"""
    prop = 'C02,C01'
    recursive = 'copy_pointer'
    audit_only = True
    worlds = ('compiled',)
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30', d: 'u16', n: 'u15'):
        return
    def impl(b, k, e8, seg, at, o, d, n):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 4*o + 2**32 * d + 2**48 * n, at)


class copy_any_list:
    prop = 'C02,C01'
    recursive = 'copy_pointer'
    audit_only = True
    worlds = ('compiled',)
    cases = ((0,), (1,), (2,), (3,), (4,), (5,), (6,), (7,))
    def spec(tag, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30', n: 'u28', x: 'u30', d: 'u16', p: 'u16'):
        given(seg.buf, near(4*o, at), 4*x + 2**32 * d + 2**48 * p)
    def impl(tag, b, k, e8, seg, at, o, n, x, d, p):
        setup(b, 8*k, 8*e8)
        b.copy_from_pointer(8*k, seg, 1 + 4*o + 2**32 * tag + 2**35 * n, at)


class copy_inline:
    """a struct item written in its slot: truncated sections, the rest of the slot untouched"""
    prop = 'C21,C02,C06'
    contract = ('copy_pointer',)
    track = ('store', 'recurse')
    cases = ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2))
    def spec(n, slot, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             seg: 'capnpy.segment.base:BaseSegment', at: 'i40', o: 'u30', d: 'u16', dd: 'u16'):
        setend(b, 8*e8)
        requires(k + dd + slot <= e8)
        if compiled():
            requires(b.length <= 2**40)
        start = near(4*o, at)
        if d + n == 0 and (start < 0 or start > len(seg.buf)):
            undefined()
        inside(seg, start, 8*d)
        if n + slot >= n + n:
            m = n
        else:
            m = slot
        if m > 0:
            inside(seg, start, 8*d + 8*m)
        elif start + 8*d + 8*n > len(seg.buf):
            undefined()
        copy(b, 8*k, seg.buf, start, 8*d if d <= dd else 8*dd)
        pointers(m, seg, start + 8*d, b, 8*k + 8*dd)
    def impl(n, slot, b, k, e8, seg, at, o, d, dd):
        setend(b, 8*e8)
        requires(k + dd + slot <= e8)
        if compiled():
            requires(b.length <= 2**40)
        b.copy_inline_struct(8*k, seg, 4*o + 2**32 * d + 2**48 * n, at, dd, slot)


def itemtype(name):
    T = repo('capnpy.type:Types')
    return repo('capnpy.list:PrimitiveItemType')(getattr(T, name))


class write_primitive_list:
    """every item in order, at its own place"""
    prop = 'C11,C18,C02,C04'
    cases = tuple((t, f, w, tag, n) for (t, f, w, tag) in (
        ('int8', 'b', 1, 2), ('uint8', 'B', 1, 2), ('int16', 'h', 2, 3), ('uint16', 'H', 2, 3),
        ('int32', 'i', 4, 4), ('uint32', 'I', 4, 4), ('int64', 'q', 8, 5), ('uint64', 'Q', 8, 5))
        for n in (0, 1, 3))
    def spec(t, fmt, width, tag, n, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             x: 'u6', y: 'u6', z: 'u6'):
        setup(b, 8*k, 8*e8)
        e = grow(b, (width * n + 7) // 8 * 8)
        store(b, 8*k, 'Q', list_word(k, e8, tag, n))
        items = [x, y, z][:n]
        for i in range(n):
            store(b, e + i * width, fmt, items[i])
    def impl(t, fmt, width, tag, n, b, k, e8, x, y, z):
        setup(b, 8*k, 8*e8)
        b.copy_from_list(8*k, itemtype(t), [x, y, z][:n])


class write_float_list:
    prop = 'C11,C18,C02,C04'
    cases = (('float32', 'f', 4, 4), ('float64', 'd', 8, 5))
    def spec(t, fmt, width, tag, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             x: 'float', y: 'float', z: 'float'):
        setup(b, 8*k, 8*e8)
        e = grow(b, (width * 3 + 7) // 8 * 8)
        store(b, 8*k, 'Q', list_word(k, e8, tag, 3))
        items = [x, y, z]
        for i in range(3):
            store(b, e + i * width, fmt, items[i])
    def impl(t, fmt, width, tag, b, k, e8, x, y, z):
        setup(b, 8*k, 8*e8)
        b.copy_from_list(8*k, itemtype(t), [x, y, z])


class write_none_list:
    prop = 'C11,C21'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28'):
        setup(b, 8*k, 8*e8)
        store(b, 8*k, 'Q', 0)
        return end(b)
    def impl(b, k, e8):
        setup(b, 8*k, 8*e8)
        b.copy_from_list(8*k, itemtype('int8'), None)
        return end(b)


class write_text_list:
    prop = 'C11,C22,C02,C18'
    cases = (('data', 0), ('text', 1))
    def spec(t, extra, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28',
             x: 'bytes', y: 'bytes'):
        setup(b, 8*k, 8*e8)
        requires(x is not None and y is not None)
        requires(len(x) < 2**28 and len(y) < 2**28)
        e = grow(b, 16)
        store(b, 8*k, 'Q', list_word(k, e8, 6, 2))
        n = (len(x) + extra + 7) // 8
        a = grow(b, 8*n)
        store(b, e, 'Q', list_word(e8, e8 + 2, 2, len(x) + extra))
        copy(b, a, x, 0, len(x))
        m = (len(y) + extra + 7) // 8
        c = grow(b, 8*m)
        store(b, e + 8, 'Q', list_word(e8 + 1, e8 + 2 + n, 2, len(y) + extra))
        copy(b, c, y, 0, len(y))
        return end(b)
    def impl(t, extra, b, k, e8, x, y):
        setup(b, 8*k, 8*e8)
        T = repo('capnpy.type:Types')
        it = repo('capnpy.list:TextItemType')(T.text if t == 'text' else T.data)
        b.copy_from_list(8*k, it, [x, y])
        return end(b)


def item(cls, seg, w, d, p):
    requires(8*w + 8 + 8*d + 8*p <= len(seg.buf))
    return cls.from_buffer(seg, 8*w + 8, d, p)


class write_struct_list:
    """tag, then one slot of the declared size per item; a slot holds what fits"""
    prop = 'C11,C18,C02,C06,C21'
    contract = ('copy_pointer',)
    track = ('store', 'recurse')
    cases = ((0, 0, 0), (1, 0, 0), (1, 1, 1), (2, 0, 0), (2, 1, 1), (2, 1, 0), (2, 0, 1))
    def spec(n, slot, p, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28', dd: 'u16',
             seg: 'capnpy.segment.base:BaseSegment', w: 'u28', d: 'u16', w2: 'u28', d2: 'u16'):
        setup(b, 8*k, 8*e8)
        requires(8*w + 8 + 8*d + 8*p <= len(seg.buf))
        requires(8*w2 + 8 + 8*d2 + 8*p <= len(seg.buf))
        items = [(w, d), (w2, d2)][:n]
        e = grow(b, 8*((dd + slot) * n) + 8)
        store(b, 8*k, 'Q', list_word(k, e8, 7, (dd + slot) * n))
        store(b, e, 'Q', 4*n + 2**32 * dd + 2**48 * slot)
        at = e + 8
        for ws, ds in items:
            copy(b, at, seg.buf, 8*ws + 8, 8*ds if ds <= dd else 8*dd)
            pointers(p if p < slot else slot, seg, 8*ws + 8 + 8*ds, b, at + 8*dd)
            at += 8*(dd + slot)
    def impl(n, slot, p, b, k, e8, dd, seg, w, d, w2, d2):
        setup(b, 8*k, 8*e8)
        S = repo('capnpy.struct_:Struct')
        class Item(S):
            __static_data_size__ = dd
            __static_ptrs_size__ = slot
        it = repo('capnpy.list:StructItemType')(Item)
        x = item(Item, seg, w, d, p)
        y = item(Item, seg, w2, d2, p)
        b.copy_from_list(8*k, it, [x, y][:n])


class compact:
    """compact() is an object of the same class over a copy of its own"""
    prop = 'C21,C13,C06'
    contract = ('copy_pointer',)
    track = ('store', 'recurse')
    cases = ('Struct', 'sub')
    def spec(what, seg: 'capnpy.segment.base:BaseSegment', w: 'u28', d: 'u16', p: 'u16'):
        requires(8*w + 8*d + 8*p <= len(seg.buf) and d + p >= 1)
        cls = {'Struct': repo('capnpy.struct_:Struct'), 'sub': repo('capnpy.schema:Enumerant')}[what]
        o = cls.from_buffer(seg, 8*w, d, p)
        b = repo('capnpy.segment.builder:SegmentBuilder')()
        at = b.allocate(8)
        b.copy_from_struct(at, cls, o)
        buf = b.as_string()
        requires(len(buf) >= 8 + 8*d + 8*p)         # law copy_struct
        return buf, 8, 8 + 8*d, d, p, True
    def impl(what, seg, w, d, p):
        cls = {'Struct': repo('capnpy.struct_:Struct'), 'sub': repo('capnpy.schema:Enumerant')}[what]
        r = cls.from_buffer(seg, 8*w, d, p).compact()
        return r._seg.buf, r._data_offset, r._ptrs_offset, r._data_size, r._ptrs_size, r.__class__ is cls
