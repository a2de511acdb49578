"""C13: pickling and raw dumps reproduce the object."""

Struct = repo('capnpy.struct_:Struct')
Segment = repo('capnpy.segment.segment:Segment')
MultiSegment = repo('capnpy.segment.segment:MultiSegment')


class Point(Struct):
    """a generated struct class"""
    __static_data_size__ = 2
    __static_ptrs_size__ = 1


class Node(Struct):
    """a generated union"""
    __static_data_size__ = 1
    __static_ptrs_size__ = 3
    __tag_offset__ = 4


def segment(multi, buf, o1, o2):
    if multi:
        return MultiSegment(buf, (0, o1, o2))
    return Segment(buf)


class pickled_struct:
    """function and arguments which pickle stores rebuild the object: class, segment, position, sizes"""
    prop = 'C13'
    cases = (Struct, Point, Node)
    def spec(cls, seg: 'capnpy.segment.base:BaseSegment', off: 'u32', d: 'u16', p: 'u16'):
        requires(off + 8*d + 8*p <= len(seg.buf))
        o = cls.from_buffer(seg, off, d, p)
        return cls, o
    def impl(cls, seg, off, d, p):
        o = cls.from_buffer(seg, off, d, p)
        r = o.__reduce__()
        n = r[0](*r[1])
        return n.__class__, n


class pickled_segment:
    """a segment is rebuilt with the same bytes, and the same segment table"""
    prop = 'C13'
    cases = (False, True)
    def spec(multi, buf: 'bytes', o1: 'u32', o2: 'u32'):
        requires(buf is not None)
        s = segment(multi, buf, o1, o2)
        return s.__class__, s
    def impl(multi, buf, o1, o2):
        s = segment(multi, buf, o1, o2)
        r = s.__reduce__()
        n = r[0](*r[1])
        return n.__class__, n


class raw_dump:
    """raw dumps restore the segment (with its table), position and sizes"""
    prop = 'C13'
    cases = ((False, Struct), (True, Struct), (False, Point), (True, Node))
    def spec(multi, cls, buf: 'bytes', o1: 'u32', o2: 'u32', off: 'u32', d: 'u16', p: 'u16'):
        requires(buf is not None and off + 8*d + 8*p <= len(buf))
        return cls, cls.from_buffer(segment(multi, buf, o1, o2), off, d, p)
    def impl(multi, cls, buf, o1, o2, off, d, p):
        o = cls.from_buffer(segment(multi, buf, o1, o2), off, d, p)
        n = cls._raw_loads(o._raw_dumps())
        return n.__class__, n


class raw_dump_other_class:
    """a raw dump may be looked at through another struct class"""
    prop = 'C13'
    cases = ((False, Point, Struct), (True, Struct, Node))
    def spec(multi, cls, other, buf: 'bytes', o1: 'u32', o2: 'u32', off: 'u32', d: 'u16', p: 'u16'):
        requires(buf is not None and off + 8*d + 8*p <= len(buf))
        return other, other.from_buffer(segment(multi, buf, o1, o2), off, d, p)
    def impl(multi, cls, other, buf, o1, o2, off, d, p):
        o = cls.from_buffer(segment(multi, buf, o1, o2), off, d, p)
        n = other._raw_loads(o._raw_dumps())
        return n.__class__, n


class lists_refuse:
    """lists say that they cannot be pickled, instead of pickling part of themselves"""
    prop = 'C13'
    def spec(l: 'capnpy.list:List'):
        raise TypeError
    def impl(l):
        return l.__reduce__()
