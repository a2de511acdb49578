"""shortrepr(): every set field once, in the order of the declaration, under its capnp name, with its value written
the way the capnp tool reads it."""
from model import module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE
from capnpy import annotate
from c11_groups import view, wf, field



def quoted(s):
    """a text, the way the capnp tool reads it"""
    s = s.replace('\\', '\\\\')
    s = s.replace('"', '\\"')
    s = s.replace("'", "\\'")
    s = s.replace('\n', '\\n')
    return '"%s"' % s


INT = (('int8', 'b', 1), ('uint8', 'B', 1), ('int16', 'h', 2), ('uint16', 'H', 2), ('int32', 'i', 4),
       ('uint32', 'I', 4), ('int64', 'q', 8), ('uint64', 'Q', 8))


class repr_ints:
    """integers are written in decimal, under the capnp name of the field"""
    prop = 'C24'
    cases = tuple((m, k, f, n) for k, f, n in INT for m in ('py', 'pyx'))

    def spec(mode, kind, fmt, size, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return '(foo = %s, barBaz = %s)' % (field(s, fmt, 0, size), field(s, fmt, 8, size))

    def impl(mode, kind, fmt, size, s):
        S = module([StructNode(1, b'S', FILE, 2, 0, [
            SlotField(b'foo', Ty(kind), 0, 0),
            SlotField(b'barBaz', Ty(kind), 8 // size, 0)])], mode).S
        return view(S, s).shortrepr()


class repr_int_default:
    """the value is the one the accessor gives: defaults are taken into account"""
    prop = 'C24'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return '(foo = %s)' % (field(s, 'i', 0, 4) ^ 42)

    def impl(mode, s):
        S = module([StructNode(1, b'S', FILE, 2, 0, [SlotField(b'foo', Ty('int32'), 0, 42, True)])], mode).S
        return view(S, s).shortrepr()


class repr_keyword:
    """a field whose name is a keyword of Python keeps its capnp name"""
    prop = 'C24'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return '(from = %s)' % field(s, 'q', 0, 8)

    def impl(mode, s):
        S = module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'from', Ty('int64'), 0, 0)])], mode).S
        return view(S, s).shortrepr()


class repr_void_bool:
    """void and bools"""
    prop = 'C24'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        b = field(s, 'B', 0, 1)
        if b & 2:
            return '(v = void, b = true)'
        return '(v = void, b = false)'

    def impl(mode, s):
        S = module([StructNode(1, b'S', FILE, 1, 0, [
            SlotField(b'v', Ty('void'), 0, None), SlotField(b'b', Ty('bool'), 1, 0)])], mode).S
        return view(S, s).shortrepr()


class repr_float:
    """floats go through float32_repr and float64_repr"""
    prop = 'C24'
    opaque = ('capnpy.floatrepr.float32_repr', 'capnpy.floatrepr.float64_repr')
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        float32_repr = repo('capnpy.util:float32_repr')
        float64_repr = repo('capnpy.util:float64_repr')
        return '(f = %s, d = %s)' % (float32_repr(field(s, 'f', 0, 4)),
                                     float64_repr(field(s, 'd', 8, 8)))

    def impl(mode, s):
        S = module([StructNode(1, b'S', FILE, 2, 0, [
            SlotField(b'f', Ty('float32'), 0, 0.0), SlotField(b'd', Ty('float64'), 1, 0.0)])], mode).S
        return view(S, s).shortrepr()


def enums(mode, where=0):
    return module([
        StructNode(1, b'S', FILE, 1, 0, [SlotField(b'e', Ty('enum', None, 2), where, 0)]),
        EnumNode(2, b'Color', FILE, [b'red', b'darkGreen', b'from', b'blue'])], mode)


class repr_enum:
    """enumerants are written with their capnp names"""
    prop = 'C24,C19'
    cases = tuple((m, i) for i in range(4) for m in ('py', 'pyx'))

    def spec(mode, i, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        requires(field(s, 'H', 2, 2) == i)
        return '(e = %s)' % ('red', 'darkGreen', 'from', 'blue')[i]

    def impl(mode, i, s):
        return view(enums(mode, 1).S, s).shortrepr()


def pointer(mode, kind):
    """struct S { aB @0 :kind; x @1 :Int32; }; struct T { y @0 :Int64; }"""
    ty = {'bytes': Ty('text'), 'unicode': Ty('text'), 'data': Ty('data'), 'list': Ty('list', Ty('int16')),
          'struct': Ty('struct', None, 2)}[kind]
    return module([
        StructNode(1, b'S', FILE, 1, 2, [SlotField(b'aB', ty, 1, None), SlotField(b'x', Ty('int32'), 0, 0)]),
        StructNode(2, b'T', FILE, 1, 0, [SlotField(b'y', Ty('int64'), 0, 0)])],
        mode, 'unicode' if kind == 'unicode' else 'bytes')


class repr_text:
    """texts are quoted"""
    prop = 'C24'
    track = ()
    strict64 = True
    opaque = ('data_repr',)
    cases = tuple((m, k) for k in ('bytes', 'data') for m in ('py', 'pyx'))

    def spec(mode, kind, t: 'bytes', x: 'i32'):
        requires(t is not None and 0 < len(t) and len(t) < 2**29 - 1)
        if kind == 'data':
            return '(aB = %s, x = %s)' % (repo('capnpy.util:data_repr')(t), x)
        return '(aB = %s, x = %s)' % (quoted(t.decode('utf-8')), x)

    def impl(mode, kind, t, x):
        return pointer(mode, kind).S(t, x).shortrepr()


class repr_unicode:
    """... when they are unicode too"""
    prop = 'C24'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, t: 'str', x: 'i32'):
        requires(t is not None)
        b = t.encode('utf-8')
        requires(0 < len(b) and len(b) < 2**29 - 1)
        return '(aB = %s, x = %s)' % (quoted(t), x)

    def impl(mode, t, x):
        return pointer(mode, 'unicode').S(t, x).shortrepr()


class repr_null:
    """null pointers are omitted"""
    prop = 'C24'
    track = ()
    cases = tuple((m, k) for k in ('bytes', 'unicode', 'data', 'list', 'struct') for m in ('py', 'pyx'))

    def spec(mode, kind, x: 'i32'):
        return '(x = %s)' % x

    def impl(mode, kind, x):
        return pointer(mode, kind).S(None, x).shortrepr()


class repr_struct:
    """structs are written recursively"""
    prop = 'C24'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, y: 'i64', x: 'i32'):
        return '(aB = (y = %s), x = %s)' % (y, x)

    def impl(mode, y, x):
        m = pointer(mode, 'struct')
        return m.S(m.T(y), x).shortrepr()


class repr_list:
    """... and lists"""
    prop = 'C24'
    track = ()
    strict64 = True
    cases = tuple((m, n) for n in range(4) for m in ('py', 'pyx'))

    def spec(mode, n, y: 'i16', x: 'i32'):
        requires(y < 32000)
        return '(aB = [%s], x = %s)' % (', '.join([str(y + i) for i in range(n)]), x)

    def impl(mode, n, y, x):
        return pointer(mode, 'list').S([y + i for i in range(n)], x).shortrepr()


def one_list(mode, elem, *nodes, text='bytes'):
    """struct S { a @0 :List(elem); }"""
    return module([StructNode(1, b'S', FILE, 0, 1, [SlotField(b'a', Ty('list', elem), 0, None)])] + list(nodes),
                  mode, text).S


class repr_list_items:
    """the items of a list are written like fields of their type"""
    prop = 'C24,C18'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k, _, _ in INT for m in ('py', 'pyx'))

    def spec(mode, kind, x: 'int'):
        lo, hi = {'int8': (-2**7, 2**7), 'uint8': (0, 2**8), 'int16': (-2**15, 2**15), 'uint16': (0, 2**16),
                  'int32': (-2**31, 2**31), 'uint32': (0, 2**32), 'int64': (-2**63, 2**63),
                  'uint64': (0, 2**64)}[kind]
        requires(lo <= x and x < hi)
        return '(a = [%s, 7])' % x

    def impl(mode, kind, x):
        return one_list(mode, Ty(kind))([x, 7]).shortrepr()


class repr_list_float:
    """... floats with the digits of their size"""
    prop = 'C24,C18'
    opaque = ('capnpy.floatrepr.float32_repr', 'capnpy.floatrepr.float64_repr')
    cases = tuple((m, k) for k in ('float32', 'float64') for m in ('py', 'pyx'))

    def spec(mode, kind, x: 'float'):
        return repo('capnpy.util:%s_repr' % kind)(x)

    def impl(mode, kind, x):
        return repo('capnpy.list:PrimitiveItemType')(getattr(repo('capnpy.type:Types'), kind)).item_repr(x)


class repr_list_bool:
    """... booleans, void"""
    prop = 'C24,C18'
    cases = ('py', 'pyx')

    def spec(mode, b: 'bool'):
        return ('true' if b else 'false'), 'void'

    def impl(mode, b):
        return repo('capnpy.list:BoolItemType')().item_repr(b), repo('capnpy.list:VoidItemType')().item_repr(None)


class repr_list_enum:
    """enumerants in lists have their capnp names"""
    prop = 'C24,C19'
    track = ()
    cases = tuple((m, i) for i in range(3) for m in ('py', 'pyx'))

    def spec(mode, i):
        return '(a = [%s, red])' % ('red', 'darkGreen', 'from')[i]

    def impl(mode, i):
        S = one_list(mode, Ty('enum', None, 2), EnumNode(2, b'Color', FILE, [b'red', b'darkGreen', b'from']))
        return S([i, 0]).shortrepr()


class repr_list_struct:
    """lists of structs"""
    prop = 'C24'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, x: 'i64', y: 'i64'):
        return '(a = [(y = %s), (y = %s)])' % (x, y)

    def impl(mode, x, y):
        m = module([
            StructNode(1, b'S', FILE, 0, 1, [SlotField(b'a', Ty('list', Ty('struct', None, 2)), 0, None)]),
            StructNode(2, b'T', FILE, 1, 0, [SlotField(b'y', Ty('int64'), 0, 0)])], mode)
        return m.S([m.T(x), m.T(y)]).shortrepr()


class repr_list_text:
    """lists of texts and data"""
    prop = 'C24'
    track = ()
    strict64 = True
    opaque = ('data_repr',)
    cases = tuple((m, k) for k in ('text', 'data') for m in ('py', 'pyx'))

    def spec(mode, kind, t: 'bytes'):
        requires(t is not None and 0 < len(t) and len(t) < 2**29 - 1)
        if kind == 'data':
            return '(a = [%s])' % repo('capnpy.util:data_repr')(t)
        return '(a = [%s])' % quoted(t.decode('utf-8'))

    def impl(mode, kind, t):
        return one_list(mode, Ty(kind))([t]).shortrepr()


class repr_list_unicode:
    """lists of texts that are unicode"""
    prop = 'C24'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, t: 'str'):
        requires(t is not None)
        b = t.encode('utf-8')
        requires(0 < len(b) and len(b) < 2**29 - 1)
        return '(a = [%s])' % quoted(t)

    def impl(mode, t):
        return one_list(mode, Ty('text'), text='unicode')([t]).shortrepr()


class repr_list_null:
    """a null text or data in a list is written as the empty one"""
    prop = 'C24'
    track = ()
    cases = tuple((m, k) for k in ('text', 'data', 'unicode') for m in ('py', 'pyx'))

    def spec(mode, kind):
        return '(a = ["", ""])'

    def impl(mode, kind):
        if kind == 'unicode':
            return one_list(mode, Ty('text'), text='unicode')([None, None]).shortrepr()
        return one_list(mode, Ty(kind))([None, None]).shortrepr()


class repr_list_list:
    """lists of lists"""
    prop = 'C24'
    maxrec = 3
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, x: 'i16', y: 'i16'):
        return '(a = [[%s], [], [%s, %s]])' % (x, y, x)

    def impl(mode, x, y):
        return one_list(mode, Ty('list', Ty('int16')))([[x], [], [y, x]]).shortrepr()


def union(mode, dflt, kind):
    """struct { union { aB @0 :kind; cD @1 :Int8 } x @2 :Int16; }: aB has the tag 0 if dflt, else 1"""
    return module([
        StructNode(1, b'S', FILE, 2, 1, [
            SlotField(b'aB', Ty(kind), 0, None if kind == 'text' else 0, False, 1 - dflt),
            SlotField(b'cD', Ty('int8'), 0, 0, False, dflt),
            SlotField(b'x', Ty('int16'), 5, 0)], False, 2, 4)], mode).S


class repr_union:
    """of a union, the member that is set is written"""
    prop = 'C24,C07'
    cases = tuple((m, d) for d in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, dflt, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        tag = field(s, 'H', 8, 2)
        x = field(s, 'h', 10, 2)
        if tag == 1 - dflt:
            return '(aB = %s, x = %s)' % (field(s, 'q', 0, 8), x)
        if tag == dflt:
            return '(cD = %s, x = %s)' % (field(s, 'b', 0, 1), x)
        return '(x = %s)' % x

    def impl(mode, dflt, s):
        return view(union(mode, dflt, 'int64'), s).shortrepr()


class repr_union_text:
    """... even if it is a null pointer, unless its tag is the one of a struct that was not filled"""
    prop = 'C24,C07'
    track = ()
    strict64 = True
    cases = tuple((m, d) for d in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, dflt, t: 'bytes', x: 'i16'):
        if t is None:
            if dflt:
                return '(x = %s)' % x
            return '(aB = "", x = %s)' % x
        requires(0 < len(t) and len(t) < 2**29 - 1)
        return '(aB = %s, x = %s)' % (quoted(t.decode('utf-8')), x)

    def impl(mode, dflt, t, x):
        return union(mode, dflt, 'text').new_a_b(t, x).shortrepr()


class repr_union_kinds:
    """members of the other types"""
    prop = 'C24,C07'
    cases = tuple((m, k, t) for k in ('void', 'bool', 'uint16', 'enum') for t in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, kind, tag, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        x = field(s, 'h', 10, 2)
        requires(field(s, 'H', 8, 2) == tag)
        if tag == 1:
            return '(cD = %s, x = %s)' % (field(s, 'b', 0, 1), x)
        name = ('aB', '', 'eF')[tag]
        v = field(s, 'H', 0, 2)
        if kind == 'void':
            return '(%s = void, x = %s)' % (name, x)
        if kind == 'bool':
            return '(%s = %s, x = %s)' % (name, 'true' if field(s, 'B', 0, 1) % 2 == 1 else 'false', x)
        if kind == 'uint16':
            return '(%s = %s, x = %s)' % (name, v, x)
        requires(v < 2)
        return '(%s = %s, x = %s)' % (name, 'red' if v == 0 else 'darkGreen', x)

    def impl(mode, kind, tag, s):
        ty = Ty('enum', None, 2) if kind == 'enum' else Ty(kind)
        none = {'void': None, 'bool': False}.get(kind, 0)
        S = module([
            StructNode(1, b'S', FILE, 2, 0, [
                SlotField(b'aB', ty, 0, none, False, 0),
                SlotField(b'cD', Ty('int8'), 0, 0, False, 1),
                SlotField(b'eF', ty, 0, none, False, 2),
                SlotField(b'x', Ty('int16'), 5, 0)], False, 3, 4),
            EnumNode(2, b'Color', FILE, [b'red', b'darkGreen'])], mode).S
        return view(S, s).shortrepr()


class repr_union_null:
    """a pointer member that is set and null has the text of its default value, except for the one with the tag 0"""
    prop = 'C24,C20'
    cases = tuple((m, k, d) for k in ('text', 'unicode', 'data', 'list', 'struct') for d in (0, 1, 2, 3) for m in ('py', 'pyx'))

    def spec(mode, kind, tag, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        x = field(s, 'h', 10, 2)
        requires(field(s, 'H', 8, 2) == tag % 3 and s._ptrs_size > 0)
        given(s._seg.buf, s._data_offset + s._data_size * 8, 0)
        if tag == 0:
            return '(cD = %s, x = %s)' % (field(s, 'b', 0, 1), x)
        if tag == 3:
            return '(x = %s)' % x
        return '(%s = %s, x = %s)' % (('', 'aB', 'eF')[tag], {'list': '[]', 'struct': '(y = 0)'}.get(kind, '""'), x)

    def impl(mode, kind, tag, s):
        ty = {'text': Ty('text'), 'unicode': Ty('text'), 'data': Ty('data'), 'list': Ty('list', Ty('int16')),
              'struct': Ty('struct', None, 2)}[kind]
        S = module([
            StructNode(1, b'S', FILE, 2, 1, [
                SlotField(b'cD', Ty('int8'), 0, 0, False, 0),
                SlotField(b'aB', ty, 0, None, False, 1),
                SlotField(b'eF', ty, 0, None, False, 2),
                SlotField(b'x', Ty('int16'), 5, 0)] if tag < 3 else [
                SlotField(b'aB', ty, 0, None, False, 0),
                SlotField(b'x', Ty('int16'), 5, 0)], False, 3, 4),
            StructNode(2, b'T', FILE, 1, 0, [SlotField(b'y', Ty('int64'), 0, 0)])],
            mode, 'unicode' if kind == 'unicode' else 'bytes').S
        return view(S, s).shortrepr()


class repr_group:
    """a group is written like a struct"""
    prop = 'C24'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return '(a = %s, gG = (xY = %s))' % (field(s, 'q', 0, 8), field(s, 'i', 8, 4))

    def impl(mode, s):
        S = module([
            StructNode(1, b'S', FILE, 2, 0, [SlotField(b'a', Ty('int64'), 0, 0), GroupField(b'gG', 2)]),
            StructNode(2, b'gG', 1, 2, 0, [SlotField(b'xY', Ty('int32'), 2, 0)], True, 0, 0, b'S.')], mode).S
        return view(S, s).shortrepr()


class repr_nullable:
    """a nullable group is written as the group it is"""
    prop = 'C24,C20'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return '(gG = (isNull = %s, value = %s))' % (field(s, 'b', 0, 1), field(s, 'i', 4, 4))

    def impl(mode, s):
        S = module([
            StructNode(1, b'S', FILE, 1, 0, [GroupField(b'gG', 2, annotations=[Ann(annotate.nullable)])]),
            StructNode(2, b'gG', 1, 1, 0, [SlotField(b'isNull', Ty('int8'), 0, 0),
                                          SlotField(b'value', Ty('int32'), 1, 0)], True, 0, 0, b'S.')], mode).S
        return view(S, s).shortrepr()


class repr_nullable_member:
    """a nullable group which is a member of a union"""
    prop = 'C24,C07'
    cases = tuple((mode, k) for mode in ('py', 'pyx') for k in (0, 1, 2))

    def spec(mode, k, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        requires(field(s, 'H', 2, 2) == k)
        if k == 0:
            return '(aX = %s)' % field(s, 'q', 8, 8)
        if k == 1:
            return '(gG = (isNull = %s, value = %s))' % (field(s, 'b', 0, 1), field(s, 'i', 4, 4))
        return '(c = %s)' % field(s, 'q', 8, 8)

    def impl(mode, k, s):
        S = module([
            StructNode(1, b'S', FILE, 2, 0, [SlotField(b'aX', Ty('int64'), 1, 0, disc=0),
                                            GroupField(b'gG', 2, disc=1, annotations=[Ann(annotate.nullable)]),
                                            SlotField(b'c', Ty('int64'), 1, 0, disc=2)], dc=3, do=1),
            StructNode(2, b'gG', 1, 2, 0, [SlotField(b'isNull', Ty('int8'), 0, 0),
                                          SlotField(b'value', Ty('int32'), 1, 0)], True, 0, 0, b'S.')], mode).S
        return view(S, s).shortrepr()


class text_escapes:
    """what would end the text or start an escape is escaped"""
    prop = 'C24'

    def spec(s: 'str'):
        return quoted(s)

    def impl(s):
        return repo('capnpy.util:text_unicode_repr')(s)


class text_bytes_escapes:
    """texts that are kept as bytes are decoded first"""
    prop = 'C24'

    def spec(s: 'bytes'):
        requires(s is not None)
        return quoted(s.decode('utf-8'))

    def impl(s):
        return repo('capnpy.util:text_bytes_repr')(s)
