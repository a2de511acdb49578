"""Accessors of generated classes: every field is read at the place the schema
gives it -- whatever the offset, the default, the section sizes and the message."""
import struct as struct_
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE

Struct = repo('capnpy.struct_:Struct')

INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
NUMS = INTS + ('float32', 'float64')
FMT = {'int8': 'b', 'int16': 'h', 'int32': 'i', 'int64': 'q', 'uint8': 'B', 'uint16': 'H', 'uint32': 'I',
       'uint64': 'Q', 'float32': 'f', 'float64': 'd'}
SIZE = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8,
        'float32': 4, 'float64': 8}


def wf(s):
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(s._seg.buf))
    return view(Struct, s)


def view(cls, s):
    """the struct s, seen as an instance of cls"""
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj


class int_field:
    prop = 'C11,C06'
    cases = tuple((m, k) for k in INTS for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u19'):
        s = wf(s)
        requires(off * SIZE[kind] < 2**20)
        if off * SIZE[kind] + SIZE[kind] > 8 * s._data_size:
            return 0
        return rd(s._seg.buf, FMT[kind], s._data_offset + off * SIZE[kind])

    def impl(mode, kind, s, off):
        S = struct(mode, [SlotField(b'x', Ty(kind), off, 0)])
        return view(S, s).x


class int_default:
    prop = 'C11,C06'
    cases = tuple((m, k, d) for k, d in (('int8', -128), ('int16', 7), ('int32', -2), ('int64', 2**62),
                                         ('uint8', 255), ('uint16', 40000), ('uint32', 2**32 - 1), ('uint64', 2**63))
                  for m in ('py', 'pyx'))

    def spec(mode, kind, d, s: 'capnpy.struct_:Struct', off: 'u19'):
        s = wf(s)
        requires(off * SIZE[kind] < 2**20)
        if off * SIZE[kind] + SIZE[kind] > 8 * s._data_size:
            return d
        return rd(s._seg.buf, FMT[kind], s._data_offset + off * SIZE[kind]) ^ d

    def impl(mode, kind, d, s, off):
        S = struct(mode, [SlotField(b'x', Ty(kind), off, d, True)])
        return view(S, s).x


class float_field:
    prop = 'C11,C06'
    cases = tuple((m, k) for k in ('float32', 'float64') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u19'):
        s = wf(s)
        requires(off * SIZE[kind] < 2**20)
        if off * SIZE[kind] + SIZE[kind] > 8 * s._data_size:
            return 0
        return rd(s._seg.buf, FMT[kind], s._data_offset + off * SIZE[kind])

    def impl(mode, kind, s, off):
        S = struct(mode, [SlotField(b'x', Ty(kind), off, 0.0)])
        return view(S, s).x


class bool_field:
    prop = 'C11,C06'
    cases = tuple((m, r, d) for r in (0, 1, 4, 7) for d in (False, True) for m in ('py', 'pyx'))

    def spec(mode, r, d, s: 'capnpy.struct_:Struct', byte: 'u19'):
        s = wf(s)
        if byte >= 8 * s._data_size:
            return d
        return (rd(s._seg.buf, 'B', s._data_offset + byte) // 2**r % 2 == 1) != d

    def impl(mode, r, d, s, byte):
        S = struct(mode, [SlotField(b'x', Ty('bool'), 8 * byte + r, d, d)])
        return view(S, s).x


class enum_field:
    prop = 'C11,C19'
    cases = tuple((m, d) for d in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, d, s: 'capnpy.struct_:Struct', off: 'u19'):
        s = wf(s)
        if 2 * off >= 8 * s._data_size:
            return d
        return rd(s._seg.buf, 'H', s._data_offset + 2 * off) ^ d

    def impl(mode, d, s, off):
        S = struct(mode, [SlotField(b'x', Ty('enum', None, 2), off, d, d != 0)],
                   more=[EnumNode(2, b'E', FILE, [b'red', b'green', b'blue'])])
        return int(view(S, s).x)


class void_field:
    prop = 'C11'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return None

    def impl(mode, s):
        return view(struct(mode, [SlotField(b'x', Ty('void'))]), s).x


class text_field:
    prop = 'C11,C22'
    opaque = ('Segment.read_str',)
    cases = tuple((m, k) for k in ('text', 'data', 'unicode') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        if kind == 'data':
            return s._read_data(8 * off)
        if kind == 'unicode':
            return s._read_text_unicode(8 * off)
        return s._read_text_bytes(8 * off)

    def impl(mode, kind, s, off):
        S = struct(mode, [SlotField(b'x', Ty('data' if kind == 'data' else 'text'), off)],
                   text='unicode' if kind == 'unicode' else 'bytes')
        return view(S, s).x


class text_get:
    prop = 'C11,C22'
    opaque = ('Segment.read_str',)
    cases = tuple((m, k) for k in ('text', 'data', 'unicode') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        if kind == 'data':
            return s._read_data(8 * off, b'')
        if kind == 'unicode':
            return s._read_text_unicode(8 * off, b'')
        return s._read_text_bytes(8 * off, b'')

    def impl(mode, kind, s, off):
        S = struct(mode, [SlotField(b'x', Ty('data' if kind == 'data' else 'text'), off)],
                   text='unicode' if kind == 'unicode' else 'bytes')
        return view(S, s).get_x()


class has_field:
    prop = 'C11,C06'
    cases = tuple((m, k) for k in ('text', 'data', 'struct', 'list', 'anyPointer') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        if off >= s._ptrs_size:
            return False
        return rd(s._seg.buf, 'q', s._ptrs_offset + 8 * off) != 0

    def impl(mode, kind, s, off):
        S = struct(mode, [SlotField(b'x', Ty(kind, Ty('int8'), 1), off)])
        return view(S, s).has_x()


class struct_field:
    prop = 'C11,C05'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        t = s._read_struct(8 * off, Struct)
        if t is None:
            return None
        return t._seg, t._data_offset, t._data_size, t._ptrs_size

    def impl(mode, s, off):
        S = struct(mode, [SlotField(b'x', Ty('struct', None, 1), off)])
        t = view(S, s).x
        if t is None:
            return None
        if t.__class__ is not S:
            raise TypeError
        return t._seg, t._data_offset, t._data_size, t._ptrs_size


def parts(l):
    if l is None:
        return None
    return l._seg, l._offset, l._size_tag, l._item_count, l._item_type


LISTS = NUMS + ('bool', 'void', 'text', 'unicode', 'data')


def item_type(kind):
    Types = repo('capnpy.type:Types')
    if kind == 'bool':
        return repo('capnpy.list:BoolItemType')()
    if kind == 'void':
        return repo('capnpy.list:VoidItemType')()
    if kind == 'text':
        return repo('capnpy.list:TextItemType')(Types.text)
    if kind == 'unicode':
        return repo('capnpy.list:TextUnicodeItemType')(Types.text)
    if kind == 'data':
        return repo('capnpy.list:TextItemType')(Types.data)
    return repo('capnpy.list:PrimitiveItemType')(getattr(Types, kind))


def list_of(mode, kind, off):
    return struct(mode, [SlotField(b'x', Ty('list', Ty('text' if kind == 'unicode' else kind)), off)],
                  text='unicode' if kind == 'unicode' else 'bytes')


class list_field:
    prop = 'C11,C18'
    cases = tuple((m, k) for k in ('int16', 'text') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        return parts(s._read_list(8 * off, item_type(kind)))

    def impl(mode, kind, s, off):
        return parts(view(list_of(mode, kind, off), s).x)


class list_items:
    """the items of every kind of list get the item type of the schema"""
    prop = 'C11,C12,C18'
    cases = tuple((m, k) for k in LISTS for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        if off < s._ptrs_size:
            requires(rd(s._seg.buf, 'q', s._ptrs_offset + 8 * off) == 0)
        return None, 0, item_type(kind)

    def impl(mode, kind, s, off):
        v = view(list_of(mode, kind, off), s)
        l = v.get_x()
        return v.x, l._item_count, l._item_type


class get_struct:
    """get_X() of a struct that is not there is a struct with the defaults of its fields"""
    prop = 'C11,C06'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', off: 'u16'):
        s = wf(s)
        if off < s._ptrs_size:
            requires(rd(s._seg.buf, 'q', s._ptrs_offset + 8 * off) == 0)
        return True, 7, 0, None, b'', False, None, True

    def impl(mode, s, off):
        M = module([
            StructNode(2, b'P', FILE, 2, 2, [
                SlotField(b'a', Ty('int16'), 0, 7, True), SlotField(b'b', Ty('int64'), 1, 0),
                SlotField(b't', Ty('text'), 0), SlotField(b'l', Ty('list', Ty('int8')), 1),
                SlotField(b'f', Ty('bool'), 16, True, True)]),
            StructNode(1, b'S', FILE, 0, 1, [SlotField(b'p', Ty('struct', None, 2), off)])], mode)
        p = view(M.S, s).get_p()
        return p.__class__ is M.P, p.a, p.b, p.t, p.get_t(), p.has_t(), p.l, p.f


class float_default:
    prop = 'C11,C06'
    cases = tuple((m, k, d) for k in ('float32', 'float64') for d in (1.5, -0.0, float('inf')) for m in ('py', 'pyx'))

    def spec(mode, kind, d, s: 'capnpy.struct_:Struct', off: 'u18'):
        s = wf(s)
        n = SIZE[kind]
        if n * off + n > 8 * s._data_size:
            return d
        pos = s._data_offset + n * off
        if n == 8:
            return struct_.unpack('<d', struct_.pack('<Q', rd(s._seg.buf, 'Q', pos) ^ rd(struct_.pack('<d', d), 'Q', 0)))[0]
        value = rd(struct_.pack('<f', rd(s._seg.buf, 'f', pos)), 'I', 0)
        return struct_.unpack('<f', struct_.pack('<I', value ^ rd(struct_.pack('<f', d), 'I', 0)))[0]

    def impl(mode, kind, d, s, off):
        S = struct(mode, [SlotField(b'x', Ty(kind), off, d, True)])
        return view(S, s).x
