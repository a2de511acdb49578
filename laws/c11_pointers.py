"""Pointer fields in constructors: a struct or a list that is passed is copied
into the slot of its field, with the class the schema gives it."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE

Struct = repo('capnpy.struct_:Struct')
SegmentBuilder = repo('capnpy.segment.builder:SegmentBuilder')
NUMS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64')
LISTS = NUMS + ('bool', 'void', 'text', 'unicode', 'data')


def item_type(kind):
    Types = repo('capnpy.type:Types')
    if kind == 'bool':
        return repo('capnpy.list:BoolItemType')()
    if kind == 'void':
        return repo('capnpy.list:VoidItemType')()
    if kind == 'text':
        return repo('capnpy.list:TextItemType')(Types.text)
    if kind == 'unicode':
        return repo('capnpy.list:TextUnicodeItemType')(Types.text)
    if kind == 'data':
        return repo('capnpy.list:TextItemType')(Types.data)
    return repo('capnpy.list:PrimitiveItemType')(getattr(Types, kind))


def types(mode, dw, off):
    """enum E { x y z }, struct P { k :Int16 }, struct S { a :Int64, p :P, q :S, e :List(E), l :List(P) }"""
    return module([
        EnumNode(9, b'E', FILE, [b'x', b'y', b'z']),
        StructNode(2, b'P', FILE, 1, 0, [SlotField(b'k', Ty('int16'), 0, 0)]),
        StructNode(1, b'S', FILE, dw, off + 4, [
            SlotField(b'a', Ty('int64'), 0, 0),
            SlotField(b'p', Ty('struct', None, 2), off + 2),
            SlotField(b'q', Ty('struct', None, 1), off),
            SlotField(b'e', Ty('list', Ty('enum', None, 9)), off + 1),
            SlotField(b'l', Ty('list', Ty('struct', None, 2)), off + 3)])], mode)


class struct_ctor:
    """S(p=v) copies v into the slot of p"""
    prop = 'C11,C21'
    calls = ('SegmentBuilder.copy_from_struct', 'SegmentBuilder.copy_from_list')
    track = ('call', 'store')
    cases = tuple((m, k) for k in ('p', 'q', 'pos') for m in ('py', 'pyx'))

    def spec(mode, k, s: 'capnpy.struct_:Struct', a: 'i64', dw: 'u16', off: 'u15'):
        requires(dw > 0)
        M = types(mode, dw, off)
        E = repo('capnpy.list:EnumItemType')(M.E)
        L = repo('capnpy.list:StructItemType')(M.P)
        p = view(M.P, s)
        q = view(M.S, s)
        b = SegmentBuilder()
        b.allocate(8 * dw + 8 * off + 32)
        b.write_int64(0, a)
        o = 8 * dw + 8 * off
        b.copy_from_struct(o + 16, M.P, p if k != 'q' else None)
        b.copy_from_struct(o, M.S, q if k != 'p' else None)
        b.copy_from_list(o + 8, E, None)
        b.copy_from_list(o + 24, L, None)

    def impl(mode, k, s, a, dw, off):
        M = types(mode, dw, off)
        p = view(M.P, s)
        q = view(M.S, s)
        if k == 'p':
            M.S(a, p=p)
        elif k == 'q':
            M.S(a, q=q)
        else:
            M.S(a, p, q)


class list_ctor:
    """S(x=v) copies the items of v into the slot of x, as items of the type of the schema"""
    prop = 'C11,C12,C18'
    calls = ('SegmentBuilder.copy_from_list',)
    track = ('call', 'store')
    cases = tuple((m, k) for k in LISTS for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'object', dw: 'u16', pc: 'u16', off: 'u16'):
        requires(off < pc)
        b = SegmentBuilder()
        b.allocate(8 * dw + 8 * pc)
        b.copy_from_list(8 * dw + 8 * off, item_type(kind), v)

    def impl(mode, kind, v, dw, pc, off):
        S = struct(mode, [SlotField(b'x', Ty('list', Ty('text' if kind == 'unicode' else kind)), off)], dw=dw, pc=pc,
                   text='unicode' if kind == 'unicode' else 'bytes')
        S(v)


class list_of_lists:
    """lists of lists, of structs and of enums"""
    prop = 'C11,C12,C18'
    calls = ('SegmentBuilder.copy_from_list',)
    track = ('call', 'store')
    cases = tuple((m, k) for k in ('list', 'struct', 'enum', 'liststruct') for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'object'):
        M = lists(mode, kind)
        b = SegmentBuilder()
        b.allocate(8)
        b.copy_from_list(0, expected(M, kind), v)

    def impl(mode, kind, v):
        lists(mode, kind).S(v)


class read_list_of_lists:
    track = ()
    prop = 'C11,C12,C18'
    cases = tuple((m, k) for k in ('list', 'struct', 'enum', 'liststruct') for m in ('py', 'pyx'))

    def spec(mode, kind):
        return expected(lists(mode, kind), kind)

    def impl(mode, kind):
        return lists(mode, kind).S().get_x()._item_type


def lists(mode, kind):
    if kind == 'list':
        t = Ty('list', Ty('list', Ty('int16')))
    elif kind == 'struct':
        t = Ty('list', Ty('struct', None, 2))
    elif kind == 'enum':
        t = Ty('list', Ty('enum', None, 9))
    else:
        t = Ty('list', Ty('list', Ty('struct', None, 2)))
    return module([
        EnumNode(9, b'E', FILE, [b'x', b'y', b'z']),
        StructNode(2, b'P', FILE, 1, 0, [SlotField(b'k', Ty('int16'), 0, 0)]),
        StructNode(1, b'S', FILE, 0, 1, [SlotField(b'x', t, 0)])], mode)


def expected(M, kind):
    Types = repo('capnpy.type:Types')
    List = repo('capnpy.list:ListItemType')
    if kind == 'list':
        return List(item_type('int16'))
    if kind == 'struct':
        return repo('capnpy.list:StructItemType')(M.P)
    if kind == 'enum':
        return repo('capnpy.list:EnumItemType')(M.E)
    return List(repo('capnpy.list:StructItemType')(M.P))


class unsupported_ctor:
    """fields that cannot be set make the constructor fail, not write garbage"""
    prop = 'C12'
    cases = tuple((m, k) for k in ('anyPointer', 'interface') for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'object'):
        raises(NotImplementedError)

    def impl(mode, kind, v):
        S = struct(mode, [SlotField(b'x', Ty(kind), 0)])
        S(v)


class pointer_default:
    """a default value for a pointer is not supported, and the schema is refused"""
    prop = 'C12'
    cases = tuple((m, k) for k in ('text', 'unicode', 'data', 'struct', 'list') for m in ('py', 'pyx'))

    def spec(mode, kind):
        raises(ValueError)

    def impl(mode, kind):
        k = 'text' if kind == 'unicode' else kind
        return struct(mode, [SlotField(b'x', Ty(k, Ty('int8'), 1), 0, None, True)],
                      text='unicode' if kind == 'unicode' else 'bytes')


class unicode_ctor:
    """an argument of a unicode text field is stored in UTF-8 and comes back"""
    prop = 'C11,C22'
    track = ()
    cases = tuple((m, k) for k in ('empty', 'more') for m in ('py', 'pyx'))

    def spec(mode, k, v: 'str'):
        if k == 'empty':
            return '', True
        if v is None:
            return None, False
        requires(0 < len(v.encode('utf-8')))
        requires(len(v.encode('utf-8')) < 2**29 - 1)
        return v, True

    def impl(mode, k, v):
        S = struct(mode, [SlotField(b'x', Ty('text'), 0)], text='unicode')
        s = S('' if k == 'empty' else v)
        return s.x, s.has_x()


def view(cls, s):
    """the struct s, seen as an instance of cls"""
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj
