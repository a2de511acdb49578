"""C02/C04/C11/C22: the SegmentBuilder: what it allocates and stores."""

def u(p, lo, n):
    return (p // 2**lo) % 2**n

def wfb(b):
    """invariant of every SegmentBuilder (established by new_builder, kept by allocate)"""
    requires(0 <= end(b) and end(b) <= 2**40 and end(b) % 8 == 0)
    if compiled():
        requires(end(b) <= b.length and b.length <= 2**40)

def wfpos(b, pos):
    """the 8 bytes at pos were allocated for a pointer"""
    requires(0 <= pos and pos <= end(b) - 8 and pos % 8 == 0)

def setup(b, pos, e):
    """e bytes are allocated, 8 of them at pos for a pointer"""
    setend(b, e)
    requires(pos <= e - 8)
    if compiled():
        requires(b.length <= 2**40)

def round8(n):
    return (n + 7) // 8 * 8


class new_builder:
    prop = 'C02'
    def spec(n: 'u30'):
        return 0
    def impl(n):
        b = repo('capnpy.segment.builder:SegmentBuilder')(n)
        return end(b)


class allocate:
    prop = 'C02'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', n: 'u36'):
        wfb(b)
        return end(b), end(b) + n, end(b) + n
    def impl(b, n):
        r = b.allocate(n)
        if compiled():
            assert end(b) <= b.length
        return r, end(b), b.get_length()


class allocated_is_zero:
    prop = 'C02'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', n: 'u36', k: 'u36'):
        wfb(b)
        requires(k < n)
        return 0
    def impl(b, n, k):
        old = b.length if compiled() else 0
        r = b.allocate(n)
        if r + k < old:
            return mem(b, 'B', r + k)
        return mem(b, 'B', r + k)


class spare_is_zero:
    """so is what later allocations will hand out"""
    prop = 'C02'
    worlds = ('compiled',)
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', n: 'u36', k: 'u36'):
        wfb(b)
        return 0
    def impl(b, n, k):
        old = b.length
        b.allocate(n)
        if k < end(b) or k >= b.length:
            return 0
        if k < old:
            return mem(b, 'B', k)
        return mem(b, 'B', k)


class allocate_keeps:
    """what was stored before is still there after growing"""
    prop = 'C02'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', n: 'u36', pos: 'u40', v: 'i64'):
        wfb(b)
        wfpos(b, pos)
        store(b, pos, 'q', v)
        return v
    def impl(b, n, pos, v):
        b.write_int64(pos, v)
        r = b.allocate(n)
        return mem(b, 'q', pos)


class write_int:
    strict64 = True
    prop = 'C04,C02,C11'
    cases = (('int8', 'b', 1), ('uint8', 'B', 1), ('int16', 'h', 2), ('uint16', 'H', 2),
             ('int32', 'i', 4), ('uint32', 'I', 4), ('int64', 'q', 8), ('uint64', 'Q', 8))
    def spec(name, fmt, width, b: 'capnpy.segment.builder:SegmentBuilder', pos: 'u40', v: 'int'):
        wfb(b)
        requires(pos <= end(b) - width)
        lo = -2**(8*width - 1) if name[0] == 'i' else 0
        if v < lo or v >= lo + 2**(8*width):
            raises()
        store(b, pos, fmt, v)
    def impl(name, fmt, width, b, pos, v):
        getattr(b, 'write_' + name)(pos, v)


class write_float:
    prop = 'C04,C02,C11'
    cases = (('float32', 'f', 4), ('float64', 'd', 8))
    def spec(name, fmt, width, b: 'capnpy.segment.builder:SegmentBuilder', pos: 'u40', v: 'float'):
        wfb(b)
        requires(pos <= end(b) - width)
        store(b, pos, fmt, v)
    def impl(name, fmt, width, b, pos, v):
        getattr(b, 'write_' + name)(pos, v)


class write_generic:
    strict64 = True
    prop = 'C04,C02,C18'
    cases = (('b', 1), ('B', 1), ('h', 2), ('H', 2), ('i', 4), ('I', 4), ('q', 8), ('Q', 8))
    def spec(fmt, width, b: 'capnpy.segment.builder:SegmentBuilder', pos: 'u40', v: 'int'):
        wfb(b)
        requires(pos <= end(b) - width)
        lo = -2**(8*width - 1) if fmt in 'bhiq' else 0
        if v < lo or v >= lo + 2**(8*width):
            raises()
        store(b, pos, fmt, v)
    def impl(fmt, width, b, pos, v):
        b.write_generic(ord(fmt), pos, v)


class write_bool:
    """one bit, the others of the byte are kept"""
    prop = 'C04,C02,C11'
    cases = ((0,), (1,), (2,), (3,), (4,), (5,), (6,), (7,))
    def spec(bit, b: 'capnpy.segment.builder:SegmentBuilder', pos: 'u40', v: 'bool'):
        wfb(b)
        requires(pos <= end(b) - 1)
        old = mem(b, 'B', pos)
        requires((old // 2**bit) % 2 == 0)      # freshly allocated
        store(b, pos, 'B', old + 2**bit if v else old)
    def impl(bit, b, pos, v):
        b.write_bool(pos, bit, v)


class alloc_struct:
    prop = 'C02,C11,C21'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28', d: 'u16', p: 'u16'):
        pos = 8 * k
        setup(b, pos, 8 * e8)
        e = grow(b, 8*d + 8*p)
        store(b, pos, 'Q', 4 * ((e8 - k - 1) % 2**30) + 2**32 * d + 2**48 * p)
        return e, e + 8*d + 8*p
    def impl(b, k, e8, d, p):
        pos = 8 * k
        setup(b, pos, 8 * e8)
        return b.alloc_struct(pos, d, p), end(b)


class alloc_list:
    prop = 'C02,C11,C21'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28', tag: 'u3', n: 'u29', body: 'u32'):
        pos = 8 * k
        setup(b, pos, 8 * e8)
        e = grow(b, round8(body))
        store(b, pos, 'Q', 1 + 4 * ((e8 - k - 1) % 2**30) + 2**32 * tag + 2**35 * n)
        return e, e + round8(body)
    def impl(b, k, e8, tag, n, body):
        pos = 8 * k
        setup(b, pos, 8 * e8)
        return b.alloc_list(pos, tag, n, body), end(b)


class alloc_bytes:
    """text has one terminator counted in the pointer, data has none; None is a null pointer"""
    prop = 'C22,C02,C11'
    cases = (('text', 1), ('data', 0))
    def spec(what, extra, b: 'capnpy.segment.builder:SegmentBuilder', k: 'u28', e8: 'u28', s: 'bytes'):
        pos = 8 * k
        setup(b, pos, 8 * e8)
        if s is None:
            store(b, pos, 'Q', 0)
            return end(b)
        n = len(s) + extra
        requires(n < 2**29)
        e = grow(b, round8(n))
        store(b, pos, 'Q', 1 + 4 * ((e8 - k - 1) % 2**30) + 2**32 * 2 + 2**35 * n)
        copy(b, e, s, 0, len(s))
        return e + round8(n)
    def impl(what, extra, b, k, e8, s):
        pos = 8 * k
        setup(b, pos, 8 * e8)
        if what == 'text':
            b.alloc_text(pos, s)
        else:
            b.alloc_data(pos, s)
        return end(b)


class as_string:
    prop = 'C02,C13'
    def spec(b: 'capnpy.segment.builder:SegmentBuilder'):
        wfb(b)
        return end(b)
    def impl(b):
        return len(b.as_string())
