"""Groups: a group's fields live in the struct that contains it, the accessor
gives a view of the same bytes, and the constructor takes the group as a tuple."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE
from capnpy import annotate

Struct = repo('capnpy.struct_:Struct')


def wf(s):
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(s._seg.buf))
    return view(Struct, s)


def view(cls, s):
    """the struct s, seen as an instance of cls"""
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj


def field(s, fmt, off, size):
    """the integer at this offset, 0 when the struct is too short"""
    if off + size > 8 * s._data_size:
        return 0
    return rd(s._seg.buf, fmt, s._data_offset + off)


def sgroup(mode, text='bytes'):
    """struct { a @0 :Int64; g :group { x @1 :Int32; t @2 :Text; y @3 :Int32 = 9 } b @4 :Int64; }"""
    return module([
        StructNode(1, b'S', FILE, 3, 1, [
            SlotField(b'a', Ty('int64'), 0, 0),
            GroupField(b'g', 2),
            SlotField(b'b', Ty('int64'), 2, 0)]),
        StructNode(2, b'g', 1, 3, 1, [
            SlotField(b'x', Ty('int32'), 2, 0),
            SlotField(b't', Ty('text'), 0, None),
            SlotField(b'y', Ty('int32'), 3, 9, True)], True, 0, 0, b'S.')], mode, text).S


class group_field:
    """s.g reads the bytes of s"""
    prop = 'C11,C06'
    opaque = ('Segment.read_str',)
    cases = tuple((m, f) for f in ('x', 't', 'y', 'a', 'b') for m in ('py', 'pyx'))

    def spec(mode, f, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        if f == 'x':
            return field(s, 'i', 8, 4)
        if f == 't':
            return s._read_text_bytes(0)
        if f == 'y':
            return field(s, 'i', 12, 4) ^ 9
        if f == 'a':
            return field(s, 'q', 0, 8)
        return field(s, 'q', 16, 8)

    def impl(mode, f, s):
        v = view(sgroup(mode), s)
        g = v.g
        if f == 'a':
            return v.a
        if f == 'b':
            return v.b
        return getattr(g, f)


class group_ctor:
    """S(g=(...)) stores the items of the tuple, in the order of the schema"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, k, a: 'i64', x: 'i32', t: 'bytes', y: 'i32', b: 'i64'):
        requires(t is not None and len(t) < 2**29 - 1)
        return a, x, t, y, b

    def impl(mode, k, a, x, t, y, b):
        S = sgroup(mode)
        if k == 0:
            s = S(a, (x, t, y), b)
        else:
            s = S(b=b, a=a, g=S.G(y=y, x=x, t=t))
        return s.a, s.g.x, s.g.t, s.g.y, s.b


class group_helper:
    """S.G(...) builds that tuple: in the order of the schema, with its defaults"""
    prop = 'C11'
    cases = ('py', 'pyx')

    def spec(mode, x: 'i32', y: 'i32'):
        return (x, None, 9), (0, None, y), (0, None, 9)

    def impl(mode, x, y):
        S = sgroup(mode)
        return S.G(x), S.G(y=y), S.G()


class group_helper_one:
    """S.G of a group of one field gives a tuple too, which the constructor takes"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, x: 'i32', b: 'i64'):
        return (x,), x, b

    def impl(mode, x, b):
        S = module([
            StructNode(1, b'S', FILE, 2, 0, [GroupField(b'g', 2), SlotField(b'b', Ty('int64'), 1, 0)]),
            StructNode(2, b'g', 1, 2, 0, [SlotField(b'x', Ty('int32'), 0, 0)], True, 0, 0, b'S.')], mode).S
        s = S(S.G(x), b)
        return S.G(x), s.g.x, s.b


class group_default:
    """a group that is not passed has the defaults of its fields"""
    prop = 'C11'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, a: 'i64', b: 'i64'):
        return a, b, 0, None, 9

    def impl(mode, a, b):
        s = sgroup(mode)(a, b=b)
        g = s.g
        return s.a, s.b, g.x, g.t, g.y


class nested_group:
    """groups in groups"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, x: 'i32', y: 'i16', z: 'u8'):
        return x, y, z, x, 0, 3

    def impl(mode, x, y, z):
        S = module([
            StructNode(1, b'S', FILE, 1, 0, [GroupField(b'g', 2)]),
            StructNode(2, b'g', 1, 1, 0, [SlotField(b'x', Ty('int32'), 0, 0), GroupField(b'h', 3)],
                       True, 0, 0, b'S.'),
            StructNode(3, b'h', 2, 1, 0, [SlotField(b'y', Ty('int16'), 2, 0), SlotField(b'z', Ty('uint8'), 6, 3, True)],
                       True, 0, 0, b'S.g.')], mode).S
        s = S((x, (y, z)))
        d = S(S.G(x))
        return s.g.x, s.g.h.y, s.g.h.z, d.g.x, d.g.h.y, d.g.h.z


# nullable groups

def nullable(mode, kind, null, default, explicit):
    """struct { a @0 :Int64; n :group $Py.nullable { isNull @1 :Int8; value @2 :Int64 } b @3 :Int16 }"""
    off = {'int64': 2, 'int16': 8, 'bool': 128}[kind]
    return module([
        StructNode(1, b'S', FILE, 3, 1, [
            SlotField(b'a', Ty('int64'), 0, 0),
            GroupField(b'n', 2, annotations=[Ann(annotate.nullable)]),
            SlotField(b'b', Ty('int16'), 6, 0)]),
        StructNode(2, b'n', 1, 3, 1, [
            SlotField(b'isNull', Ty('int8'), 8, null, null != 0),
            SlotField(b'value', Ty(kind), off, default, explicit)], True, 0, 0, b'S.')], mode).S


class nullable_field:
    """a nullable is None if and only if its isNull is set"""
    prop = 'C20'
    cases = tuple((m, n, d) for n in (0, 1) for d in (0, 5) for m in ('py', 'pyx'))

    def spec(mode, null, default, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        if field(s, 'b', 8, 1) ^ null != 0:
            return None, field(s, 'b', 8, 1) ^ null, field(s, 'q', 16, 8) ^ default
        return field(s, 'q', 16, 8) ^ default, 0, field(s, 'q', 16, 8) ^ default

    def impl(mode, null, default, s):
        v = view(nullable(mode, 'int64', null, default, default != 0), s)
        return v.n, v._n.is_null, v._n.value


class nullable_names:
    """the same with the names of the schema (convertCase off)"""
    prop = 'C20,C14'
    cases = tuple((m, c) for c in (True, False) for m in ('py', 'pyx'))

    def spec(mode, convert, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        if field(s, 'b', 8, 1) != 0:
            return None
        return field(s, 'q', 16, 8)

    def impl(mode, convert, s):
        S = module([
            StructNode(1, b'S', FILE, 3, 0, [GroupField(b'nN', 2, annotations=[Ann(annotate.nullable)])]),
            StructNode(2, b'nN', 1, 3, 0, [SlotField(b'isNull', Ty('int8'), 8, 0),
                                          SlotField(b'value', Ty('int64'), 2, 0)], True, 0, 0, b'S.')],
            mode, 'bytes', convert).S
        if convert:
            return view(S, s).n_n
        return view(S, s).nN


class nullable_ctor:
    """S(n=None) and S(n=v) come back, and the other fields are not disturbed"""
    prop = 'C20,C11'
    track = ()
    strict64 = True
    cases = tuple((m, k, n) for k in ('int64', 'int16') for n in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, kind, null, a: 'i64', v: 'i64', b: 'i16'):
        if kind == 'int16':
            requires(-2**15 <= v and v < 2**15)
        return (a, v, b, 0, v), (a, None, b, 1)

    def impl(mode, kind, null, a, v, b):
        S = nullable(mode, kind, null, 0, False)
        s = S(a, v, b)
        t = S(a, None, b)
        return (s.a, s.n, s.b, s._n.is_null, s._n.value), (t.a, t.n, t.b, t._n.is_null)


class nullable_value:
    """the value of a nullable that is null is its default"""
    prop = 'C20,C11'
    track = ()
    strict64 = True
    cases = tuple((m, n, d) for n in (0, 1) for d in (0, 42) for m in ('py', 'pyx'))

    def spec(mode, null, d, v: 'i64'):
        return None, d, v, v

    def impl(mode, null, d, v):
        S = nullable(mode, 'int64', null, d, True)
        s = S(0, None, 0)
        t = S(0, v, 0)
        return s.n, s._n.value, t.n, t._n.value


class nullable_bool:
    """False is not None"""
    prop = 'C20'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, v: 'bool'):
        return v, None, None

    def impl(mode, v):
        S = nullable(mode, 'bool', 1, False, False)
        return S(0, v, 0).n, S(0, None, 0).n, S(0).n


class nullable_default:
    """a nullable that is not passed is null if its isNull is true by default, else its value"""
    prop = 'C20'
    track = ()
    cases = tuple((m, n) for n in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, null):
        return None if null else 42

    def impl(mode, null):
        return nullable(mode, 'int64', null, 42, True)().n


class nullable_refused:
    """anything but a group of isNull and a plain value is refused when the code is generated"""
    prop = 'C20,C12'
    cases = tuple((m, k) for k in ('text', 'list', 'struct', 'three', 'one', 'isnull', 'value') for m in ('py', 'pyx'))

    def spec(mode, kind):
        raises(ValueError)

    def impl(mode, kind):
        isnull = SlotField(b'isNull', Ty('int8'), 0, 0)
        value = SlotField(b'value', Ty('int64'), 1, 0)
        if kind == 'text':
            fields = [isnull, SlotField(b'value', Ty('text'), 0, None)]
        elif kind == 'list':
            fields = [isnull, SlotField(b'value', Ty('list', Ty('int8')), 0, None)]
        elif kind == 'struct':
            fields = [isnull, SlotField(b'value', Ty('struct', None, 1), 0, None)]
        elif kind == 'three':
            fields = [isnull, value, SlotField(b'more', Ty('int8'), 1, 0)]
        elif kind == 'one':
            fields = [value]
        elif kind == 'isnull':
            fields = [SlotField(b'isNil', Ty('int8'), 0, 0), value]
        else:
            fields = [isnull, SlotField(b'val', Ty('int64'), 1, 0)]
        return module([
            StructNode(1, b'S', FILE, 2, 1, [GroupField(b'n', 2, annotations=[Ann(annotate.nullable)])]),
            StructNode(2, b'n', 1, 2, 1, fields, True, 0, 0, b'S.')], mode).S


# unions in groups

def ugroup(mode, do=8, go=9, dw=3):
    """struct { a @0 :Int64; union { g :group { x @1 :Int32; y @2 :Int16 } v @3 :Void; }
    h :group { union { p @4 :Int32; q @5 :Text } } }"""
    return module([
        StructNode(1, b'S', FILE, dw, 1, [
            SlotField(b'a', Ty('int64'), 0, 0),
            GroupField(b'g', 2, 0),
            SlotField(b'v', Ty('void'), 0, None, False, 1),
            GroupField(b'h', 3)], False, 2, do),
        StructNode(2, b'g', 1, dw, 1, [
            SlotField(b'x', Ty('int32'), 2, 0),
            SlotField(b'y', Ty('int16'), 6, 0)], True, 0, 0, b'S.'),
        StructNode(3, b'h', 1, dw, 1, [
            SlotField(b'p', Ty('int32'), 5, 0, False, 0),
            SlotField(b'q', Ty('text'), 0, None, False, 1)], True, 2, go, b'S.')], mode).S


class union_group:
    """a group that is a member of a union"""
    prop = 'C07,C11'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, k, a: 'i64', x: 'i32', y: 'i16'):
        if k == 2:
            return a, 1, 0, None
        return a, 0, x, y

    def impl(mode, k, a, x, y):
        S = ugroup(mode)
        if k == 0:
            s = S(a, g=(x, y))
        elif k == 1:
            s = S.new_g(a, (x, y))
        else:
            s = S.new_v(a)
            return s.a, int(s.which()), int(s.h.which()), s.v
        return s.a, int(s.which()), s.g.x, s.g.y


class union_group_tags:
    """the tags of the struct and of its group are written where the schema puts them"""
    prop = 'C07,C11'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k in (0, 1, 2, 3) for m in ('py', 'pyx'))

    def spec(mode, k, p: 'i32', do: 'u16', go: 'u16', dw: 'u16'):
        requires(12 <= do and do + 1 < go and go < 4 * dw)
        requires(dw <= 64 or dw >= 160) # the builder has one buffer; or the first allocation makes another
        if k == 0:
            return 0, 0, p
        if k == 1:
            return 1, 0, p
        return k - 2, 1, None

    def impl(mode, k, p, do, go, dw):
        S = ugroup(mode, do, go, dw)
        if k == 0:
            s = S.new_g(0, (1, 2), S.H(p))
        elif k == 1:
            s = S(0, v=None, h=S.H(p))
        elif k == 2:
            s = S(0, g=(3, 4), h=S.H(q=None))
        else:
            s = S.new_v(5, h=S.H(q=None))
        return int(s.which()), int(s.h.which()), s.h.q if k > 1 else s.h.p


class union_group_inactive:
    prop = 'C07'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        requires(field(s, 'H', 16, 2) != 0)
        raises(ValueError)

    def impl(mode, s):
        return view(ugroup(mode), s).g


class group_union:
    """a group with a union of its own: its tag is not that of the struct"""
    prop = 'C07,C11'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, k, a: 'i64', p: 'i32', t: 'bytes'):
        requires(t is not None and len(t) < 2**29 - 1)
        if k == 0:
            return a, 1, 0, p
        return a, 1, 1, t

    def impl(mode, k, a, p, t):
        S = ugroup(mode)
        if k == 0:
            s = S(a, v=None, h=S.H(p=p))
            return s.a, int(s.which()), int(s.h.which()), s.h.p
        s = S.new_v(a, h=S.H(q=t))
        return s.a, int(s.which()), int(s.h.which()), s.h.q


class group_union_inactive:
    prop = 'C07'
    cases = tuple((m, k) for k in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, k, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        requires(field(s, 'H', 18, 2) != k)
        raises(ValueError)

    def impl(mode, k, s):
        h = view(ugroup(mode), s).h
        if k == 0:
            return h.p
        return h.q


class group_union_two:
    """two members at once are refused in a group too"""
    prop = 'C07'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, p: 'i32', t: 'bytes'):
        requires(t is None or len(t) < 2**29 - 1)
        raises(TypeError)

    def impl(mode, p, t):
        S = ugroup(mode)
        return S(0, v=None, h=S.H(p, t))
