"""Unions of generated classes: the tag decides which member can be read."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE

Struct = repo('capnpy.struct_:Struct')


def wf(s):
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(s._seg.buf))
    return view(Struct, s)


def view(cls, s):
    """the struct s, seen as an instance of cls"""
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj


def tag_of(s, do):
    if 2 * do + 2 > 8 * s._data_size:
        return 0
    return rd(s._seg.buf, 'H', s._data_offset + 2 * do)


MEMBERS = 6


def union(mode, do, text='bytes'):
    """struct { a @0; union { m0 :Int16, m1 :Text, m2 :Void, m3 :Bool, m4 :S, m5 :List(Int8) } }"""
    return module([StructNode(1, b'S', FILE, 3, 2, [
        SlotField(b'a', Ty('int64'), 0, 0),
        SlotField(b'm0', Ty('int16'), 8, 0, False, 0),
        SlotField(b'm1', Ty('text'), 0, None, False, 1),
        SlotField(b'm2', Ty('void'), 0, None, False, 2),
        SlotField(b'm3', Ty('bool'), 128, False, False, 3),
        SlotField(b'm4', Ty('struct', None, 1), 0, None, False, 4),
        SlotField(b'm5', Ty('list', Ty('int8')), 0, None, False, 5)], False, MEMBERS, do)], mode, text)


class tag:
    """which() and is_X() agree with the tag in the message, whatever it is"""
    prop = 'C07,C19'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', do: 'u16'):
        s = wf(s)
        t = tag_of(s, do)
        return t, t, t == 0, t == 1, t == 2, t == 3, t == 4, t == 5

    def impl(mode, s, do):
        S = union(mode, do).S
        v = view(S, s)
        w = v.which()
        if w.__class__ is not S.__tag__:
            raise TypeError
        return int(w), v.__which__(), v.is_m0(), v.is_m1(), v.is_m2(), v.is_m3(), v.is_m4(), v.is_m5()


class tag_names:
    """the tags are numbered by the discriminants of the schema"""
    prop = 'C07,C19'
    cases = ('py', 'pyx')

    def spec(mode):
        return 0, 1, 2, 3, 4, 5, ('m0', 'm1', 'm2', 'm3', 'm4', 'm5')

    def impl(mode):
        t = union(mode, 4).S.__tag__
        return int(t.m0), int(t.m1), int(t.m2), int(t.m3), int(t.m4), int(t.m5), t.__members__


class inactive:
    """reading a member that is not the active one is refused"""
    prop = 'C07'
    cases = tuple((m, i) for i in range(MEMBERS) for m in ('py', 'pyx'))

    def spec(mode, i, s: 'capnpy.struct_:Struct', do: 'u16'):
        s = wf(s)
        requires(tag_of(s, do) != i)
        raises(ValueError)

    def impl(mode, i, s, do):
        return getattr(view(union(mode, do).S, s), 'm%d' % i)


class get_inactive:
    """... through get_X() too"""
    prop = 'C07'
    cases = tuple((m, i) for i in (1, 4, 5) for m in ('py', 'pyx'))

    def spec(mode, i, s: 'capnpy.struct_:Struct', do: 'u16'):
        s = wf(s)
        requires(tag_of(s, do) != i)
        raises(ValueError)

    def impl(mode, i, s, do):
        return getattr(view(union(mode, do).S, s), 'get_m%d' % i)()


KINDS = ('int8', 'uint64', 'float32', 'float64', 'bool', 'void', 'enum', 'text', 'unicode', 'data', 'struct', 'list',
         'anyPointer', 'default', 'group')


def member(mode, kind, do):
    """struct { union { zeta @0 :kind; zz @1 :Int8 } }, with tag 1 for zeta"""
    if kind == 'group':
        f = GroupField(b'zeta', 3, 1)
    elif kind == 'default':
        f = SlotField(b'zeta', Ty('int32'), 0, -5, True, 1)
    elif kind == 'enum':
        f = SlotField(b'zeta', Ty('enum', None, 9), 0, 0, False, 1)
    elif kind == 'list':
        f = SlotField(b'zeta', Ty('list', Ty('int16')), 0, None, False, 1)
    elif kind == 'struct':
        f = SlotField(b'zeta', Ty('struct', None, 1), 0, None, False, 1)
    else:
        f = SlotField(b'zeta', Ty('text' if kind == 'unicode' else kind), 0, DEFAULT.get(kind), False, 1)
    return module([
        EnumNode(9, b'E', FILE, [b'x', b'y', b'z']),
        StructNode(1, b'S', FILE, 3, 2, [f, SlotField(b'zz', Ty('int8'), 0, 0, False, 0)], False, 2, do),
        StructNode(3, b'zeta', 1, 3, 2, [SlotField(b'x', Ty('int32'), 2, 0)], True, 0, 0, b'S.')],
        mode, 'unicode' if kind == 'unicode' else 'bytes')


DEFAULT = {'int8': 0, 'uint64': 0, 'float32': 0.0, 'float64': 0.0, 'bool': False}


class inactive_kinds:
    """... whatever its type, and whatever the order in which the members are declared"""
    prop = 'C07'
    cases = tuple((m, k, g) for k in KINDS for g in (0, 1) for m in ('py', 'pyx')
                  if not g or k in ('text', 'unicode', 'data', 'struct', 'list'))

    def spec(mode, kind, g, s: 'capnpy.struct_:Struct', do: 'u16'):
        s = wf(s)
        requires(tag_of(s, do) != 1)
        raises(ValueError)

    def impl(mode, kind, g, s, do):
        v = view(member(mode, kind, do).S, s)
        if g:
            return v.get_zeta()
        return v.zeta


class active_kinds:
    """the member whose tag is in the message is not refused"""
    prop = 'C07'
    opaque = ('Segment.read_str',)
    cases = tuple((m, k) for k in KINDS if k not in ('text', 'unicode', 'data', 'struct', 'list') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', do: 'u16'):
        s = wf(s)
        requires(tag_of(s, do) == 1)
        return False, True, 1, 'zeta', ('zz', 'zeta')

    def impl(mode, kind, s, do):
        v = view(member(mode, kind, do).S, s)
        v.zeta
        return v.is_zz(), v.is_zeta(), int(v.which()), str(v.which()), v.__tag__.__members__


class active:
    """the active member is read like any other field"""
    prop = 'C07,C11'
    opaque = ('Segment.read_str',)
    cases = tuple((m, i) for i in (0, 1, 2, 3) for m in ('py', 'pyx'))

    def spec(mode, i, s: 'capnpy.struct_:Struct', do: 'u16'):
        s = wf(s)
        requires(tag_of(s, do) == i)
        if i == 0:
            if 18 > 8 * s._data_size:
                return 0
            return rd(s._seg.buf, 'h', s._data_offset + 16)
        if i == 1:
            return s._read_text_bytes(0)
        if i == 2:
            return None
        if 17 > 8 * s._data_size:
            return False
        return rd(s._seg.buf, 'B', s._data_offset + 16) % 2 == 1

    def impl(mode, i, s, do):
        return getattr(view(union(mode, do).S, s), 'm%d' % i)


class new_member:
    """new_X(x=v) makes a struct whose active member is X"""
    prop = 'C07,C11'
    track = ()
    cases = tuple((m, i) for i in (0, 1, 2, 3) for m in ('py', 'pyx'))

    def spec(mode, i, a: 'i64', n: 'i16', t: 'bytes', b: 'bool'):
        if i == 0:
            return a, 0, n
        if i == 1:
            requires(t is None or len(t) < 2**29 - 1)
            return a, 1, t
        if i == 2:
            return a, 2, None
        return a, 3, b

    def impl(mode, i, a, n, t, b):
        S = union(mode, 4).S
        if i == 0:
            s = S.new_m0(a, n)
        elif i == 1:
            s = S.new_m1(a, t)
        elif i == 2:
            s = S.new_m2(a)
        else:
            s = S.new_m3(a, b)
        if s.__class__ is not S:
            raise TypeError
        return s.a, int(s.which()), getattr(s, 'm%d' % i)


class ctor_member:
    """S(x=v) too"""
    prop = 'C07,C11'
    track = ()
    cases = tuple((m, i) for i in (0, 1, 2, 3) for m in ('py', 'pyx'))

    def spec(mode, i, a: 'i64', n: 'i16', t: 'bytes', b: 'bool'):
        if i == 0:
            return a, 0, n
        if i == 1:
            requires(t is None or len(t) < 2**29 - 1)
            return a, 1, t
        if i == 2:
            return a, 2, None
        return a, 3, b

    def impl(mode, i, a, n, t, b):
        S = union(mode, 4).S
        if i == 0:
            s = S(a, m0=n)
        elif i == 1:
            s = S(a, m1=t)
        elif i == 2:
            s = S(a, m2=None)
        else:
            s = S(a, m3=b)
        return s.a, int(s.which()), getattr(s, 'm%d' % i)


class ctor_none:
    """without a member the tag is 0"""
    prop = 'C07'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, a: 'i64'):
        return a, 0, 0

    def impl(mode, a):
        s = union(mode, 4).S(a)
        return s.a, int(s.which()), s.m0


class ctor_two:
    """two members of one union cannot be set at once"""
    prop = 'C07'
    track = ()
    cases = tuple((m, i) for i in range(4) for m in ('py', 'pyx'))

    def spec(mode, i, n: 'i16', t: 'bytes', b: 'bool'):
        requires(t is None or len(t) < 2**29 - 1)
        raises(TypeError)

    def impl(mode, i, n, t, b):
        S = union(mode, 4).S
        if i == 0:
            return S(0, m0=n, m1=t)
        if i == 1:
            return S(0, m0=n, m2=None)
        if i == 2:
            return S(0, m1=t, m3=b)
        return S(0, n, t, None, b)


def fld(s, fmt, off, size):
    if off + size > 8 * s._data_size:
        return 0
    return rd(s._seg.buf, fmt, s._data_offset + off)


class member_name:
    """a union with a member called "name" works like any other"""
    prop = 'C07'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        tag = fld(s, 'H', 8, 2)
        if tag == 0:
            return fld(s, 'q', 0, 8), True
        raise ValueError

    def impl(mode, s):
        S = module([StructNode(1, b'S', FILE, 2, 0, [
            SlotField(b'name', Ty('int64'), 0, 0, False, 0),
            SlotField(b'other', Ty('int8'), 0, 0, False, 1)], False, 2, 4)], mode).S
        v = view(S, s)
        return v.name, v.is_name()


class member_name_other:
    """... and so do its other members"""
    prop = 'C07'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        tag = fld(s, 'H', 8, 2)
        if tag == 1:
            return fld(s, 'b', 0, 1), False
        raise ValueError

    def impl(mode, s):
        S = module([StructNode(1, b'S', FILE, 2, 0, [
            SlotField(b'name', Ty('int64'), 0, 0, False, 0),
            SlotField(b'other', Ty('int8'), 0, 0, False, 1)], False, 2, 4)], mode).S
        v = view(S, s)
        return v.other, v.is_name()
