"""Enums: a value is its ordinal; its name is that of the enumerant with that ordinal."""
from model import struct, module, Ty, SlotField, StructNode, EnumNode, FILE

Struct = repo('capnpy.struct_:Struct')
make_enum = repo('capnpy.enum:enum')
BaseEnum = repo('capnpy.enum:BaseEnum')

NAMES = ([b'red'], [b'red', b'green'], [b'red', b'darkGreen', b'blue'], [b'x%d' % i for i in range(7)])
PY = (['red'], ['red', 'green'], ['red', 'dark_green', 'blue'], ['x%d' % i for i in range(7)])


def wf(s):
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(s._seg.buf))
    return s


def view(cls, s):
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj


def name_of(n, v):
    for i in range(len(PY[n])):
        if v == i:
            return PY[n][i]
    return 'unknown<%d>' % v


class known_names:
    """the name of an enumerant"""
    prop = 'C19'
    cases = tuple((m, n, i) for n in (0, 2, 3) for i in range(len(NAMES[n])) for m in ('py', 'pyx'))

    def spec(mode, n, i):
        return PY[n][i], i, i, PY[n][i]

    def impl(mode, n, i):
        E = module([EnumNode(2, b'E', FILE, NAMES[n])], mode).E
        return E._new(i).name, int(E._new(i)), int(getattr(E, PY[n][i])), str(E._new(i))


class unknown_names:
    """an ordinal which is not in the schema keeps its value and is not taken for a member"""
    prop = 'C19'
    cases = tuple((m, n) for n in (0, 1, 3) for m in ('py', 'pyx'))

    def spec(mode, n, v: 'u16'):
        requires(v >= len(NAMES[n]))
        return 'unknown<%d>' % v, v

    def impl(mode, n, v):
        E = module([EnumNode(2, b'E', FILE, NAMES[n])], mode).E
        return E._new(v).name, int(E._new(v))


class any_name:
    """the name of every 16-bit value"""
    prop = 'C19'
    cases = tuple((m, n) for n in (1, 2) for m in ('py', 'pyx'))

    def spec(mode, n, v: 'u16'):
        return name_of(n, v)

    def impl(mode, n, v):
        return module([EnumNode(2, b'E', FILE, NAMES[n])], mode).E._new(v).name


class read_name:
    """a member read from a message has the name of the stored ordinal"""
    prop = 'C19'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        v = 0
        if 2 * off < 8 * s._data_size:
            v = rd(s._seg.buf, 'H', s._data_offset + 2 * off)
        return v, name_of(2, v), True

    def impl(mode, s, off):
        s = wf(s)
        M = module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('enum', None, 2), off, 0)]),
                    EnumNode(2, b'E', FILE, NAMES[2])], mode)
        x = view(M.S, s).x
        return int(x), x.name, x.__class__ is M.E


class enum_factory:
    """the helper enum(name, members)"""
    prop = 'C19'
    cases = ((0,), (1,), (2,))

    def spec(i):
        return ('red', 'green', 'blue')[i], i, i

    def impl(i):
        E = make_enum('Color', ('red', 'green', 'blue'))
        return E(i).name, int(E(i)), int((E.red, E.green, E.blue)[i])


class enum_factory_unknown:
    prop = 'C19'

    def spec(v: 'u16'):
        requires(v >= 3)
        return 'unknown<%d>' % v, v

    def impl(v):
        E = make_enum('Color', ('red', 'green', 'blue'))
        return E(v).name, int(E(v))


class many_members:
    """nothing depends on the number of enumerants"""
    prop = 'C19'
    cases = ((0,), (1,), (255,), (256,), (299,), (300,), (65535,))

    def spec(i):
        name = 'm%d' % i if i < 300 else 'unknown<%d>' % i
        return name, i, i if i < 300 else -1

    def impl(i):
        E = make_enum('Many', ['m%d' % j for j in range(300)])
        return E(i).name, int(E(i)), int(getattr(E, 'm%d' % i)) if i < 300 else -1


class list_item:
    """an enumerant in a list is the 16-bit unsigned ordinal stored there"""
    prop = 'C19,C18,C04'

    def spec(l: 'capnpy.list:List', i: 'u29'):
        requires(-2**40 <= l._offset and l._offset <= 2**40)
        requires(0 <= l._item_length and l._item_length <= 2**21)
        requires(l._item_offset == 0 or l._item_offset == 8)
        at = l._offset + l._item_offset + i * l._item_length
        if at < 0 or at > len(l._seg.buf) - 2:
            raises()
        return rd(l._seg.buf, 'H', at), True

    def impl(l, i):
        E = make_enum('Color', ('red', 'green', 'blue'))
        x = repo('capnpy.list:ItemType').from_type(E).read_item(l, i)
        return int(x), x.__class__ is E


class list_item_name:
    prop = 'C19,C18'

    def spec(l: 'capnpy.list:List', i: 'u29'):
        requires(0 <= l._offset and l._offset <= 2**40)
        requires(l._item_length == 2 and l._item_offset == 0)
        requires(l._offset + 2*i + 2 <= len(l._seg.buf))
        return name_of(2, rd(l._seg.buf, 'H', l._offset + 2*i))

    def impl(l, i):
        return repo('capnpy.list:ItemType').from_type(make_enum('Color', PY[2])).read_item(l, i).name


class enumerant_name:
    """an enumerant called "name" does not take the place of the attribute that str() and repr() rely on"""
    prop = 'C19'
    cases = tuple((m, i) for i in range(4) for m in ('py', 'pyx'))

    def spec(mode, i):
        n = ('name', 'value', 'self', 'unknown<3>')[i]
        return n, '<E.%s: %d>' % (n, i), i, 0

    def impl(mode, i):
        E = module([EnumNode(1, b'E', FILE, [b'name', b'value', b'self'])], mode).E
        e = E(i)
        return str(e), repr(e), int(e), int(E.name)
