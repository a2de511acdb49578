"""C08: message streams are framed exactly, truncation is reported."""
import struct

Struct = repo('capnpy.struct_:Struct')
Segment = repo('capnpy.segment.segment:Segment')
MultiSegment = repo('capnpy.segment.segment:MultiSegment')


class File(object):
    """an ordinary file object over the given bytes"""
    def __init__(self, s):
        self.s = s
        self.pos = 0

    def read(self, size=-1):
        a = self.pos
        b = len(self.s)
        if size >= 0 and a + size < b:
            b = a + size
        self.pos = b
        return self.s[a:b]

    def readline(self):
        raise NotImplementedError


def u32(s, at):
    return rd(s, 'I', at)


def header(s, n):
    """[(start, end)] of the n segments in s, end of the message; None if truncated"""
    at = 4 + 4*n
    if n % 2 == 0:
        at += 4
    segs = []
    for i in range(n):
        if len(s) < 8 + 4*i:
            return None
        w = u32(s, 4 + 4*i)
        segs.append((at, at + 8*w))
        at += 8*w
    if at > len(s):
        return None
    return segs, at


def root(seg):
    return Struct.from_buffer(seg, 0, 0, 1)


class load_one:
    """single-segment messages: exactly 8 + 8*size bytes are consumed and handed out"""
    prop = 'C08'
    unroll = 6
    opaque = ('Struct._read_struct',)
    def spec(s: 'bytes'):
        requires(s is not None and len(s) <= 2**40)
        requires(len(s) < 4 or u32(s, 0) == 0)
        if len(s) == 0:
            raise EOFError
        if len(s) < 8:
            raise ValueError
        end = 8 + 8 * u32(s, 4)
        if len(s) < end:
            raise ValueError
        r = root(Segment(s[8:end]))._read_struct(0, Struct)
        return r, end
    def impl(s):
        f = File(s)
        r = repo('capnpy.message:load')(f, Struct)
        return r, f.pos


class load_empty:
    """end of stream exactly between two messages is EOFError, nothing else is"""
    prop = 'C08'
    def spec():
        raise EOFError
    def impl():
        return repo('capnpy.message:load')(File(b''), Struct)


class load_many:
    """multi-segment messages: sizes, padding, then the segments one after the other"""
    prop = 'C08'
    unroll = 6
    opaque = ('Struct._read_struct',)
    cases = (2, 3, 4, 5)
    def spec(n, s: 'bytes'):
        requires(s is not None and 4 <= len(s) and len(s) <= 2**40)
        requires(u32(s, 0) == n - 1)
        requires(len(s) < 8 or u32(s, 4) >= 1)      # else there is no root pointer
        h = header(s, n)
        if h is None:
            raise ValueError
        segs, end = h
        start = segs[0][0]
        offsets = []
        for a, b in segs:
            offsets.append(a - start)
        r = root(MultiSegment(s[start:end], tuple(offsets)))._read_struct(0, Struct)
        return r, end
    def impl(n, s):
        f = File(s)
        r = repo('capnpy.message:load')(f, Struct)
        return r, f.pos


class loads_all_of_it:
    """loads() accepts one whole message, and nothing after it"""
    prop = 'C08'
    unroll = 6
    opaque = ('Struct._read_struct',)
    def spec(s: 'bytes'):
        requires(s is not None and 8 <= len(s) and len(s) <= 2**40)
        requires(u32(s, 0) == 0)
        end = 8 + 8 * u32(s, 4)
        if len(s) < end:
            raise ValueError
        r = root(Segment(s[8:end]))._read_struct(0, Struct)
        if end < len(s):
            raise ValueError
        return r
    def impl(s):
        return repo('capnpy.message:loads')(s, Struct)


class load_sequence:
    """consecutive messages of one stream, up to its end"""
    prop = 'C08'
    unroll = 6
    opaque = ('Struct._read_struct',)
    cases = (0, 1, 2)
    def spec(n, s: 'bytes', a: 'u26', b: 'u26'):
        requires(s is not None)
        sizes = [a, b][:n]
        at = 0
        res = []
        for w in sizes:
            requires(len(s) >= at + 8 + 8*w)
            requires(u32(s, at) == 0 and u32(s, at + 4) == w)
            res.append(root(Segment(s[at + 8:at + 8 + 8*w]))._read_struct(0, Struct))
            at += 8 + 8*w
        requires(len(s) < at + 8)
        if len(s) > at:
            raise ValueError
        return res
    def impl(n, s, a, b):
        requires(len(s) < 4 or u32(s, 0) == 0 or n > 0)
        return list(repo('capnpy.message:load_all')(File(s), Struct))


class dump_fast:
    """the fast dump is header, root pointer, and the bytes from the object to its end"""
    prop = 'C08,C17'
    opaque = ('Struct._get_end',)
    def spec(seg: 'capnpy.segment.base:BaseSegment', w: 'u28', d: 'u16', p: 'u16', k: 'u26'):
        requires(8*w + 8*d + 8*p <= len(seg.buf))
        o = Struct.from_buffer(seg, 8*w, d, p)
        end = o._get_end()
        requires(end == 8*w + 8*k and k >= d + p)
        if end > len(seg.buf):
            raise ValueError
        return b'\0\0\0\0' + struct.pack('<IQ', 1 + k, 2**32 * d + 2**48 * p) + seg.buf[8*w:end]
    def impl(seg, w, d, p, k):
        o = Struct.from_buffer(seg, 8*w, d, p)
        return repo('capnpy.message:dumps')(o)


class dump_slow:
    """otherwise header and a deep copy; the header counts the words of the copy"""
    prop = 'C08,C17'
    opaque = ('Struct._get_end',)
    contract = ('copy_pointer',)
    track = ('store', 'recurse')
    cases = (True, False)
    def spec(fast, seg: 'capnpy.segment.base:BaseSegment', w: 'u28', d: 'u16', p: 'u16'):
        requires(8*w + 8*d + 8*p <= len(seg.buf))
        o = Struct.from_buffer(seg, 8*w, d, p)
        if fast:
            requires(o._get_end() == -1)
        b = repo('capnpy.segment.builder:SegmentBuilder')()
        b.allocate(16)
        b.copy_from_struct(8, Struct, o)
        requires(end(b) - 8 < 2**35)
        b.write_uint32(0, 0)
        b.write_uint32(4, (end(b) - 8) // 8)
        return b.as_string()
    def impl(fast, seg, w, d, p):
        o = Struct.from_buffer(seg, 8*w, d, p)
        return repo('capnpy.message:dumps')(o, fast)


class Sink(object):
    def __init__(self):
        self.got = []
    def write(self, s):
        self.got.append(s)


class dump_to_file:
    """dump() writes the bytes of dumps(), once"""
    prop = 'C08'
    opaque = ('Struct._get_end',)
    contract = ('copy_pointer',)
    track = ('store', 'recurse')
    cases = (True, False)
    def spec(fast, seg: 'capnpy.segment.base:BaseSegment', w: 'u28', d: 'u16', p: 'u16'):
        requires(8*w + 8*d + 8*p <= len(seg.buf))
        o = Struct.from_buffer(seg, 8*w, d, p)
        return [repo('capnpy.message:dumps')(o, fast)]
    def impl(fast, seg, w, d, p):
        o = Struct.from_buffer(seg, 8*w, d, p)
        f = Sink()
        repo('capnpy.message:dump')(o, f, fast)
        return f.got


class struct_methods:
    """the methods of Struct are the functions of the message module"""
    prop = 'C08'
    unroll = 6
    opaque = ('Struct._read_struct',)
    cases = ('load', 'loads', 'load_all')
    def spec(name, s: 'bytes'):
        requires(s is not None and 8 <= len(s) and len(s) <= 2**40 and u32(s, 0) == 0)
        f = File(s)
        if name == 'load':
            return repo('capnpy.message:load')(f, Struct), f.pos
        if name == 'loads':
            return repo('capnpy.message:loads')(s, Struct), 0
        requires(len(s) <= 8 + 8 * u32(s, 4))
        return list(repo('capnpy.message:load_all')(f, Struct)), f.pos
    def impl(name, s):
        f = File(s)
        if name == 'load':
            return Struct.load(f), f.pos
        if name == 'loads':
            return Struct.loads(s), 0
        return list(Struct.load_all(f)), f.pos


class Upto(Struct):
    """a compact struct which ends at the given place"""
    where = None
    def _get_end(self):
        return self.where


class written_then_read:
    """the header of a one-segment message written by dumps() is the one load() expects"""
    prop = 'C08'
    unroll = 3
    opaque = ('Struct._read_struct',)
    def spec(seg: 'capnpy.segment.base:BaseSegment', w: 'u28', d: 'u16', p: 'u16', k: 'u26'):
        requires(8*w + 8*d + 8*p <= 8*w + 8*k and 8*w + 8*k <= len(seg.buf))
        body = struct.pack('<Q', 2**32 * d + 2**48 * p) + seg.buf[8*w:8*w+8*k]
        return root(Segment(body))._read_struct(0, Struct)
    def impl(seg, w, d, p, k):
        class Here(Upto):
            where = 8*w + 8*k
        o = Here.from_buffer(seg, 8*w, d, p)
        return repo('capnpy.message:loads')(repo('capnpy.message:dumps')(o), Struct)


class Endless(object):
    """the rest of a stream behind the segment count; its body is not there"""
    def __init__(self, s):
        self.s = s
        self.pos = 4
        self.before = 4
    def read(self, size=-1):
        self.before = self.pos
        self.pos += size
        if size > 4:
            raise EOFError
        return self.s[0:size]


class body_position:
    """for any number of segments the body starts at the next word after their sizes"""
    prop = 'C08'
    def spec(n: 'u32', s: 'bytes'):
        requires(n >= 1 and s is not None and len(s) >= 8)
        return 8 + 4*n + (4 if n % 2 == 1 else 0)
    def impl(n, s):
        f = Endless(s)
        try:
            repo('capnpy.message:_load_buffer_multiple_segments')(f, n + 1)
        except EOFError:
            pass
        return f.before
