"""Types of other schema files, and constants."""
from model import (struct, module, importing, Ty, SlotField, GroupField, StructNode, EnumNode, ConstNode, Ann, FILE, reflecting)

OTHER = 0x2000


def other_nodes(file):
    """struct P { k :Int16; struct Q { z :Int16 }; enum F { a b } } enum E { x y }"""
    return [StructNode(2, b'P', file, 1, 0, [SlotField(b'k', Ty('int16'), 0, 0)]),
            StructNode(3, b'Q', 2, 1, 0, [SlotField(b'z', Ty('int16'), 1, 0)], False, 0, 0, b'P.'),
            EnumNode(4, b'F', 2, [b'a', b'b'], b'P.'),
            EnumNode(5, b'E', file, [b'x', b'y'])]


TYPES = ('P', 'Q', 'E', 'F')
NODES = {'P': 2, 'Q': 3, 'F': 4, 'E': 5}


def cls(o, t):
    if t == 'P':
        return o.P
    if t == 'Q':
        return o.P.Q
    if t == 'F':
        return o.P.F
    return o.E


def main(mode, t, o, standalone):
    ty = Ty('struct' if t in ('P', 'Q') else 'enum', None, NODES[t])
    return importing([StructNode(1, b'S', FILE, 1, 3, [
        SlotField(b'x', ty, 0, None if t in ('P', 'Q') else 0),
        SlotField(b'l', Ty('list', ty), 1),
        SlotField(b'll', Ty('list', Ty('list', ty)), 2)])],
        [(OTHER, b'dir/other.capnp', other_nodes(OTHER))],
        {'dir.other': o} if standalone else {'/dir/other.capnp': o}, mode, standalone)


class imported_types:
    """a field of a type of another file has that very type, alone and in lists"""
    prop = 'C12,C11'
    track = ()
    cases = tuple((m, t, s) for t in TYPES for s in (False, True) for m in ('py', 'pyx'))

    def spec(mode, t, standalone):
        o = module(other_nodes(FILE), mode)
        c = cls(o, t)
        if t in ('P', 'Q'):
            i = repo('capnpy.list:StructItemType')(c)
        else:
            i = repo('capnpy.list:EnumItemType')(c)
        return c, i, repo('capnpy.list:ListItemType')(i)

    def impl(mode, t, standalone):
        o = module(other_nodes(FILE), mode)
        s = main(mode, t, o, standalone).S()
        if t in ('P', 'Q'):
            c = s.get_x().__class__
        else:
            c = s.x.__class__
        return c, s.get_l()._item_type, s.get_ll()._item_type


class imported_ctor:
    """... and in constructors"""
    prop = 'C12,C11'
    calls = ('SegmentBuilder.copy_from_struct', 'SegmentBuilder.copy_from_list')
    track = ('call', 'store')
    cases = tuple((m, t) for t in ('P', 'Q') for m in ('py', 'pyx'))

    def spec(mode, t, v: 'object', l: 'object'):
        o = module(other_nodes(FILE), mode)
        i = repo('capnpy.list:StructItemType')(cls(o, t))
        b = repo('capnpy.segment.builder:SegmentBuilder')()
        b.allocate(32)
        b.copy_from_struct(8, cls(o, t), v)
        b.copy_from_list(16, i, l)
        b.copy_from_list(24, repo('capnpy.list:ListItemType')(i), None)

    def impl(mode, t, v, l):
        o = module(other_nodes(FILE), mode)
        main(mode, t, o, False).S(v, l)


class same_names:
    """files of the same base name in several folders are all imported, and not confused"""
    prop = 'C12,C15'
    track = ()
    cases = tuple((m, s, names) for s in (False, True) for m in ('py', 'pyx')
                  for names in (('a/foo', 'b/foo', 'c/foo', 'd/foo'), ('a/foo', 'b/foo_1', 'c/foo', 'd/foo'),
                                ('a/foo-bar', 'b/foo+bar', 'foo_bar', 'c/1foo')) if '-' not in names[0] or not s)

    def spec(mode, standalone, names):
        return 1, 2, 3, 4

    def impl(mode, standalone, names):
        files = []
        imports = {}
        fields = []
        for i in (1, 2, 3, 4):
            P = [StructNode(10 * i, b'P', 0x100 * i, 1, 0, [SlotField(b'k', Ty('int16'), 0, i, True)])]
            name = names[i - 1]
            files.append((0x100 * i, name.encode('utf-8') + b'.capnp', P))
            M = module([StructNode(10 * i, b'P', FILE, 1, 0, [SlotField(b'k', Ty('int16'), 0, i, True)])], mode)
            if standalone:
                imports[name.replace('/', '.')] = M
            else:
                imports['/' + name + '.capnp'] = M
            fields.append(SlotField(b'f%d' % i, Ty('struct', None, 10 * i), i - 1))
        s = importing([StructNode(1, b'S', FILE, 0, 4, fields)], files, imports, mode, standalone).S()
        return s.get_f1().k, s.get_f2().k, s.get_f3().k, s.get_f4().k


# constants

Struct = repo('capnpy.struct_:Struct')
List = repo('capnpy.list:List')
MultiSegment = repo('capnpy.segment.segment:MultiSegment')


def same(self):
    return self


def const_module(mode, value, ty, opts=None):
    nodes = [StructNode(1, b'S', FILE, 1, 1, [SlotField(b'x', Ty('int8'), 0, 0)]),
             ConstNode(7, b'c', FILE, ty, value),
             StructNode(2, b'T', FILE, 1, 0, [SlotField(b'x', Ty('int8'), 0, 0)]),
             ConstNode(8, b'd', 2, ty, value, b'T.')]
    return module(nodes, mode)


class struct_constant:
    """a constant of a struct type is a struct of that class, with the contents of the schema"""
    prop = 'C12'
    track = ()
    stub = {'Struct.compact': same}
    cases = tuple((m, k) for k in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, k, s: 'capnpy.struct_:Struct', buf: 'bytes', o1: 'u30', o2: 'u30'):
        requires(0 <= s._data_size and s._data_size < 65536)
        requires(0 <= s._ptrs_size and s._ptrs_size < 65536)
        requires(0 <= s._data_offset and s._data_offset <= 2**40)
        seg = segment(k, buf, o1, o2)
        requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(buf))
        return 'S', seg, s._data_offset, s._data_size, s._ptrs_size, 'S', seg, s._data_offset, s._data_size, s._ptrs_size

    def impl(mode, k, s, buf, o1, o2):
        v = Struct.from_buffer(segment(k, buf, o1, o2), s._data_offset, s._data_size, s._ptrs_size)
        M = const_module(mode, AnyStruct(v), Ty('struct', None, 1))
        c = M.c
        d = M.T.d
        return (c.__class__.__name__, c._seg, c._data_offset, c._data_size, c._ptrs_size,
                d.__class__.__name__, d._seg, d._data_offset, d._data_size, d._ptrs_size)


class AnyStruct:
    def __init__(self, value):
        self.value = value

    def as_struct(self, cls):
        return self.value


def segment(k, buf, o1, o2):
    requires(buf is not None)
    if k == 0:
        return repo('capnpy.segment.segment:Segment')(buf)
    if k == 1:
        return MultiSegment(buf, (0, o1))
    return MultiSegment(buf, (0, o1, o2))


def sized(s, seg):
    requires(0 <= s._data_size and s._data_size < 65536)
    requires(0 <= s._ptrs_size and s._ptrs_size < 65536)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(seg.buf))
    return Struct.from_buffer(seg, s._data_offset, s._data_size, s._ptrs_size)


def about(s):
    return s.__class__.__name__, s._seg, s._data_offset, s._data_size, s._ptrs_size


class reflection_data:
    """the reflection data of a module are the request and the options it was compiled with"""
    prop = 'C12'
    track = ()
    cases = tuple((m, k) for k in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, k, s: 'capnpy.struct_:Struct', t: 'capnpy.struct_:Struct', buf: 'bytes', buf2: 'bytes',
             o1: 'u30', o2: 'u30'):
        seg = segment(k, buf, o1, o2)
        seg2 = segment(0, buf2, 0, 0)
        sized(s, seg)
        sized(t, seg2)
        return ('CodeGeneratorRequest', seg, s._data_offset, s._data_size, s._ptrs_size,
                'Options', seg2, t._data_offset, t._data_size, t._ptrs_size, mode == 'pyx')

    def impl(mode, k, s, t, buf, buf2, o1, o2):
        M = reflecting([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int8'), 0, 0)])], mode,
                       sized(s, segment(k, buf, o1, o2)), sized(t, segment(0, buf2, 0, 0)))
        r = M._reflection_data
        return about(r.request) + about(r.default_options) + (r.pyx,)


class reflected_struct_constant:
    """with reflection data, a constant of a struct type is the struct at this place of the request"""
    prop = 'C12'
    track = ()
    cases = tuple((m, k) for k in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, k, s: 'capnpy.struct_:Struct', t: 'capnpy.struct_:Struct', buf: 'bytes', o1: 'u30', o2: 'u30'):
        seg = segment(k, buf, o1, o2)
        sized(s, seg)
        sized(t, seg)
        return 'S', seg, t._data_offset, t._data_size, t._ptrs_size

    def impl(mode, k, s, t, buf, o1, o2):
        seg = segment(k, buf, o1, o2)
        r = sized(s, seg)
        M = reflecting([StructNode(1, b'S', FILE, 1, 1, [SlotField(b'x', Ty('int8'), 0, 0)]),
                        ConstNode(7, b'c', FILE, Ty('struct', None, 1), AnyStruct(sized(t, seg)))], mode, r, r)
        return about(M.c)


class AnyList:
    def __init__(self, value):
        self.value = value

    def as_list(self, item_type):
        return self.value


ITEMS = ('void', 'bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32',
         'float64', 'text', 'data', 'enum', 'struct', 'list')


class list_constant:
    """a list constant is the list at this place of the request, with items of the declared type"""
    prop = 'C12,C18'
    track = ()
    cases = tuple((m, t, 0) for t in ITEMS for m in ('py', 'pyx')) + tuple(('py', 'int64', g) for g in range(1, 8))

    def spec(mode, t, tag, s: 'capnpy.struct_:Struct', buf: 'bytes', off: 'u40', n: 'u29'):
        seg = segment(0, buf, 0, 0)
        sized(s, seg)
        requires(off + 8 <= len(buf))
        v = List.from_buffer(seg, off, tag, n, repo('capnpy.list:VoidItemType')())
        return 'List', seg, off, tag, v._item_count, True

    def impl(mode, t, tag, s, buf, off, n):
        seg = segment(0, buf, 0, 0)
        r = sized(s, seg)
        if t == 'list':
            ty = Ty('list', Ty('int16'))
        elif t == 'enum':
            ty = Ty('enum', None, 5)
        elif t == 'struct':
            ty = Ty('struct', None, 1)
        else:
            ty = Ty(t)
        v = List.from_buffer(seg, off, tag, n, repo('capnpy.list:VoidItemType')())
        M = reflecting([StructNode(1, b'S', FILE, 1, 1, [SlotField(b'l', Ty('list', ty), 0)]),
                        EnumNode(5, b'E', FILE, [b'x', b'y']),
                        ConstNode(7, b'c', FILE, Ty('list', ty), AnyList(v))], mode, r, r)
        c = M.c
        return c.__class__.__name__, c._seg, c._offset, c._size_tag, c._item_count, c._item_type == M.S().get_l()._item_type
