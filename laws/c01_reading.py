"""C01: every read stays inside the buffer, at the named position."""

FMTS = (('q', 8), ('Q', 8), ('d', 8), ('f', 4), ('i', 4), ('I', 4), ('h', 2), ('H', 2),
        ('b', 1), ('B', 1))
NAMES = (('int64', 'q', 8), ('uint64', 'Q', 8), ('uint64_magic', 'Q', 8), ('int32', 'i', 4),
         ('uint32', 'I', 4), ('int16', 'h', 2), ('uint16', 'H', 2), ('int8', 'b', 1),
         ('uint8', 'B', 1), ('double', 'd', 8), ('float', 'f', 4))


def checked(buf, fmt, width, off):
    if off < 0 or off > len(buf) - width:
        raise IndexError
    return rd(buf, fmt, off)


class segment_read:
    prop = 'C01,C04'
    cases = NAMES
    def spec(name, fmt, width, seg: 'capnpy.segment.segment:Segment', off: 'i64'):
        return checked(seg.buf, fmt, width, off)
    def impl(name, fmt, width, seg, off):
        return getattr(seg, 'read_' + name)(off)


class segment_read_primitive:
    prop = 'C01,C04'
    cases = FMTS
    def spec(fmt, width, seg: 'capnpy.segment.segment:Segment', off: 'i64'):
        return checked(seg.buf, fmt, width, off)
    def impl(fmt, width, seg, off):
        return seg.read_primitive(off, ord(fmt))


class unpack_uint32:
    prop = 'C01,C04'
    def spec(buf: 'bytes', off: 'i64'):
        return checked(buf, 'I', 4, off)
    def impl(buf, off):
        return repo('capnpy.segment.base:unpack_uint32')(buf, off)


class segment_read_ptr:
    prop = 'C01'
    def spec(seg: 'capnpy.segment.segment:Segment', off: 'i64'):
        return checked(seg.buf, 'q', 8, off)
    def impl(seg, off):
        return seg.read_ptr(off)


class packing_unpack:
    """fast primitive readers used by generated/user code"""
    prop = 'C01,C04'
    cases = (('int64', 'q', 8),)
    def spec(name, fmt, width, buf: 'bytes', off: 'i64'):
        return checked(buf, fmt, width, off)
    def impl(name, fmt, width, buf, off):
        return repo('capnpy.packing:unpack_' + name)(buf, off)


class packing_unpack_primitive:
    prop = 'C01,C04'
    cases = FMTS
    def spec(fmt, width, buf: 'bytes', off: 'i64'):
        return checked(buf, fmt, width, off)
    def impl(fmt, width, buf, off):
        return repo('capnpy.packing:unpack_primitive')(ord(fmt), buf, off)


def is_bytes_list(p):
    return p % 4 == 1 and (p // 2**32) % 8 == 2

def near(p, offset):
    """start of the object a near pointer at offset points to"""
    w = (p // 4) % 2**30
    if w >= 2**29:
        w = w - 2**30
    return offset + 8 + 8*w


class read_str:
    """text (extra=-1) and data (extra=0) behind a near pointer word"""
    prop = 'C01,C22'
    cases = ((0,), (-1,))
    def spec(extra, seg: 'capnpy.segment.segment:Segment', p: 'i64', offset: 'i40', default):
        if p == 0:
            return default
        if not is_bytes_list(p):
            raises()
        start = near(p, offset)
        count = (p // 2**35) % 2**29
        if start < 0 or start + count > len(seg.buf):
            raises()
        if count == 0:
            return b''
        return seg.buf[start:start+count+extra]
    def impl(extra, seg, p, offset, default):
        return seg.read_str(p, offset, default, extra)


class hash_str:
    prop = 'C01,C10'
    cases = ((0,), (-1,))
    def spec(extra, seg: 'capnpy.segment.segment:Segment', p: 'i64', offset: 'i40', default: 'i64'):
        requires(default != -1)
        if p == 0:
            return default
        if not is_bytes_list(p):
            raises()
        start = near(p, offset)
        count = (p // 2**35) % 2**29
        if start < 0 or start + count > len(seg.buf):
            raises()
        if count == 0:
            return hash(b'')
        return hash(seg.buf[start:start+count+extra])
    def impl(extra, seg, p, offset, default):
        return seg.hash_str(p, offset, default, extra)


class strhash:
    prop = 'C01,C10'
    def spec(buf: 'bytes', start: 'i63', size: 'i62'):
        if start < 0 or size < 0:
            undefined()
        return hash(buf[start:start+size])
    def impl(buf, start, size):
        return repo('capnpy._hash:strhash')(buf, start, size)
