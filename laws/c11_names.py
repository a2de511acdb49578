"""Names: whatever the names of the fields of a schema are, each of them is a
field of its own."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE
from capnpy import annotate

NAMES = (b'pos', b'builder', b'buf', b'self', b'cls', b'value', b'offset', b'obj', b'length', b'parts',
         b'data', b'ptr', b'g', b'p', b'res')


class field_names:
    """fields called like the variables of the generated code"""
    prop = 'C11'
    track = ()
    cases = tuple((m, n, k) for n in NAMES for k in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, name, k, a: 'i64', b: 'i64', t: 'bytes', u: 'bytes'):
        requires(t is not None and len(t) < 2**29 - 1)
        requires(u is not None and len(u) < 2**29 - 1)
        return a, b, 1, t, u

    def impl(mode, name, k, a, b, t, u):
        S = struct(mode, [
            SlotField(name, Ty('int64'), 0, 0), SlotField(b'zz', Ty('int64'), 1, 0),
            SlotField(b'aa', Ty('int64'), 2, 0, False, 0), SlotField(b'bb', Ty('text'), 0, None, False, 1),
            SlotField(b'tt', Ty('text'), 1, None)], dw=4, pc=2, dc=2, do=12)
        if k == 0:
            s = S(a, b, bb=t, tt=u)
        else:
            s = S.new_bb(a, b, t, u)
        return getattr(s, name.decode('utf-8')), s.zz, int(s.which()), s.bb, s.tt


class special_names:
    """a field called like a Python keyword gets an underscore"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = tuple((m, n) for n in (b'class', b'from', b'lambda', b'import') for m in ('py', 'pyx'))

    def spec(mode, name, a: 'i64', b: 'i64'):
        return a, b

    def impl(mode, name, a, b):
        S = struct(mode, [SlotField(name, Ty('int64'), 0, 0), SlotField(b'zz', Ty('int64'), 1, 0)], dw=2)
        s = S(a, b)
        return getattr(s, name.decode('utf-8') + '_'), s.zz


KEYWORDS = (b'False', b'None', b'True', b'and', b'as', b'assert', b'async', b'await', b'break', b'class', b'continue',
            b'def', b'del', b'elif', b'else', b'except', b'finally', b'for', b'from', b'global', b'if', b'import',
            b'in', b'is', b'lambda', b'nonlocal', b'not', b'or', b'pass', b'raise', b'return', b'try', b'while',
            b'with', b'yield')


class all_keywords:
    """... every one of them"""
    prop = 'C11'
    track = ()
    cases = tuple((m, n) for n in KEYWORDS for m in ('py', 'pyx'))

    def spec(mode, name):
        return 3

    def impl(mode, name):
        S = module([StructNode(1, b'S', FILE, 1, 0, [SlotField(name, Ty('int64'), 0, 3, True)])], mode, 'bytes', False).S
        return getattr(S(), name.decode('utf-8') + '_')


class property_name:
    """a field called property does not stop the others from being properties"""
    prop = 'C11'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, a: 'i8', b: 'i8'):
        return a, b

    def impl(mode, a, b):
        S = struct(mode, [SlotField(b'property', Ty('int8'), 0, 0), SlotField(b'zz', Ty('int8'), 1, 0)])
        s = S(a, b)
        return s.property, s.zz


class camel_names:
    """camelCase becomes snake_case, unless it is turned off"""
    prop = 'C11,C14'
    track = ()
    cases = tuple((m, c) for c in (False, True) for m in ('py', 'pyx'))

    def spec(mode, convert, a: 'i8', b: 'i8', c: 'i8'):
        return a, b, c

    def impl(mode, convert, a, b, c):
        S = module([StructNode(1, b'S', FILE, 1, 0, [
            SlotField(b'fooBar', Ty('int8'), 0, 0), SlotField(b'httpURL', Ty('int8'), 1, 0),
            SlotField(b'x1Y', Ty('int8'), 2, 0)])], mode, 'bytes', convert).S
        s = S(a, b, c)
        if convert:
            return s.foo_bar, s.http_url, s.x1_y
        return s.fooBar, s.httpURL, s.x1Y


class group_names:
    """group g with a field x, next to a field gX; nullable n next to a field nValue"""
    prop = 'C11,C20'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, a: 'i64', b: 'i64', c: 'i64', d: 'i64', e: 'i8'):
        return a, b, c, d, e

    def impl(mode, a, b, c, d, e):
        S = module([
            StructNode(1, b'S', FILE, 5, 0, [
                GroupField(b'g', 2),
                SlotField(b'gX', Ty('int64'), 1, 0),
                GroupField(b'n', 3, annotations=[Ann(annotate.nullable)]),
                SlotField(b'nValue', Ty('int64'), 3, 0),
                SlotField(b'nIsNull', Ty('int8'), 33, 0)]),
            StructNode(2, b'g', 1, 5, 0, [SlotField(b'x', Ty('int64'), 0, 0)], True, 0, 0, b'S.'),
            StructNode(3, b'n', 1, 5, 0, [
                SlotField(b'isNull', Ty('int8'), 32, 0),
                SlotField(b'value', Ty('int64'), 2, 0)], True, 0, 0, b'S.')], mode).S
        s = S((a,), b, c, d, e)
        return s.g.x, s.g_x, s.n, s.n_value, s.n_is_null


class nested_group_names:
    """fields hX and, in a group h, x -- both in a group g"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, a: 'i64', b: 'i64', c: 'i64'):
        return a, b, c

    def impl(mode, a, b, c):
        S = module([
            StructNode(1, b'S', FILE, 3, 0, [GroupField(b'g', 2), SlotField(b'gHX', Ty('int64'), 2, 0)]),
            StructNode(2, b'g', 1, 3, 0, [
                GroupField(b'h', 3),
                SlotField(b'hX', Ty('int64'), 1, 0)], True, 0, 0, b'S.'),
            StructNode(3, b'h', 2, 3, 0, [SlotField(b'x', Ty('int64'), 0, 0)], True, 0, 0, b'S.g.')], mode).S
        s = S(((a,), b), c)
        return s.g.h.x, s.g.h_x, getattr(s, 'g_hx')


class nested_types:
    """types nested in a struct are attributes of its class, and stay apart from
    types with the same name elsewhere"""
    prop = 'C11,C15'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, a: 'i16', b: 'i64'):
        return a, b, a, 1, ('x', 'y')

    def impl(mode, a, b):
        M = module([
            StructNode(1, b'A', FILE, 1, 1, [SlotField(b'p', Ty('struct', None, 2), 0)]),
            StructNode(2, b'P', 1, 1, 0, [SlotField(b'v', Ty('int16'), 0, 0),
                                          SlotField(b'e', Ty('enum', None, 5), 1, 0)], False, 0, 0, b'A.'),
            EnumNode(5, b'E', 2, [b'x', b'y'], b'A.P.'),
            StructNode(3, b'B', FILE, 1, 1, [SlotField(b'p', Ty('struct', None, 4), 0)]),
            StructNode(4, b'P', 3, 1, 0, [SlotField(b'v', Ty('int64'), 0, 0)], False, 0, 0, b'B.')], mode)
        p = M.A.P(a, M.A.P.E.y)
        q = M.B.P(b)
        return p.v, q.v, p.v, int(p.e), M.A.P.E.__members__
