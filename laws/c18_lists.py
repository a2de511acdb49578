"""C18/C04/C06/C19/C22: lists and their items."""

def u(p, lo, n):
    return (p // 2**lo) % 2**n

def s30(x):
    return x - 2**30 if x >= 2**29 else x

def word(seg, at):
    if at < 0 or at > len(seg.buf) - 8:
        raise IndexError
    return rd(seg.buf, 'q', at)

def wf(l):
    """what list_init (c05_pointers) proves of every list"""
    requires(-2**40 <= l._offset and l._offset <= 2**40)
    requires(0 <= l._item_length and l._item_length <= 2**21)
    requires(l._item_offset == 0 or l._item_offset == 8)
    requires(-2**29 <= l._item_count and l._item_count < 2**29)

def T(name):
    return getattr(repo('capnpy.type:Types'), name)

def itemtype(name):
    return repo('capnpy.list:ItemType').from_type(T(name))


class primitive_item:
    prop = 'C18,C04,C06,C01'
    cases = (('int8', 'b', 1), ('uint8', 'B', 1), ('int16', 'h', 2), ('uint16', 'H', 2),
             ('int32', 'i', 4), ('uint32', 'I', 4), ('int64', 'q', 8), ('uint64', 'Q', 8),
             ('float32', 'f', 4), ('float64', 'd', 8))
    def spec(name, fmt, width, l: 'capnpy.list:List', i: 'u29'):
        wf(l)
        at = l._offset + l._item_offset + i * l._item_length
        if at < 0 or at > len(l._seg.buf) - width:
            raises()
        return rd(l._seg.buf, fmt, at)
    def impl(name, fmt, width, l, i):
        return itemtype(name).read_item(l, i)


class bool_item:
    prop = 'C18,C04,C01'
    cases = ((0,), (1,), (2,), (3,), (4,), (5,), (6,), (7,))
    def spec(bit, l: 'capnpy.list:List', k: 'u26'):
        wf(l)
        at = l._offset + k
        if at < 0 or at > len(l._seg.buf) - 1:
            raises()
        return (rd(l._seg.buf, 'B', at) // 2**bit) % 2 == 1
    def impl(bit, l, k):
        return itemtype('bool').read_item(l, 8 * k + bit)


class void_item:
    prop = 'C18'
    def spec(l: 'capnpy.list:List', i: 'u29'):
        return None
    def impl(l, i):
        return itemtype('void').read_item(l, i)


class struct_item:
    prop = 'C18,C06,C01'
    def spec(l: 'capnpy.list:List', i: 'u29'):
        wf(l)
        at = l._offset + l._item_offset + i * l._item_length
        d = u(l._tag, 32, 16)
        p = u(l._tag, 48, 16)
        if at + 8*d + 8*p > len(l._seg.buf):
            raises()
        return l._seg, at, at + 8*d, d, p
    def impl(l, i):
        S = repo('capnpy.struct_:Struct')
        it = repo('capnpy.list:StructItemType').__new__(repo('capnpy.list:StructItemType'))
        it.structcls = S
        r = it.read_item(l, i)
        return r._seg, r._data_offset, r._ptrs_offset, r._data_size, r._ptrs_size


def pointer_at(l, at):
    p = word(l._seg, at)
    if p % 4 == 2:
        return l._seg.read_far_ptr(at)
    return at, p


class text_item:
    prop = 'C18,C22,C05,C01'
    cases = (('data',), ('bytes',), ('unicode',))
    def spec(what, l: 'capnpy.list:List', i: 'u29'):
        wf(l)
        at, p = pointer_at(l, l._offset + l._item_offset + i * l._item_length)
        requires(-2**40 <= at and at <= 2**40)
        b = l._seg.read_str(p, at, None, 0 if what == 'data' else -1)
        if what == 'unicode' and b is not None:
            return b.decode('utf-8')
        return b
    def impl(what, l, i):
        from_type = repo('capnpy.list:ItemType').from_type
        if what == 'data':
            it = itemtype('data')
        elif what == 'bytes':
            it = from_type(bytes)
        else:
            it = from_type(str)
        return it.read_item(l, i)


def element_bytes(tag):
    if tag == 0:
        return 0
    if tag == 2:
        return 1
    if tag == 3:
        return 2
    if tag == 4:
        return 4
    if tag == 1:
        return -1
    return 8


class list_item:
    prop = 'C18,C05,C01'
    cases = (('near', 2), ('near', 5), ('near', 7), ('far', 2), ('far', 5), ('far', 7))
    def spec(how, tag, l: 'capnpy.list:List', i: 'u29'):
        wf(l)
        at = l._offset + l._item_offset + i * l._item_length
        p = word(l._seg, at)
        if how == 'near':
            requires(p % 4 == 1)
        else:
            requires(p % 4 == 2)
            at, p = l._seg.read_far_ptr(at)
        requires(-2**40 <= at and at <= 2**40)
        requires(p % 4 == 1)
        requires(u(p, 32, 3) == tag)
        start = at + 8 + 8 * s30(u(p, 2, 30))
        n = u(p, 35, 29)
        if tag == 7:
            w = word(l._seg, start)
            return (l._seg, start, 7, s30(u(w, 2, 30)), 8 * (u(w, 32, 16) + u(w, 48, 16)), 8, w)
        return (l._seg, start, tag, n, element_bytes(tag), 0, -1)
    def impl(how, tag, l, i):
        it = repo('capnpy.list:ItemType').from_type([repo('capnpy.type:Types').int64])
        inner = it.inner_item_type
        r = it.read_item(l, i)
        assert r._item_type is inner
        return (r._seg, r._offset, r._size_tag, r._item_count, r._item_length,
                r._item_offset, r._tag)


class getitem:
    prop = 'C18'
    opaque = ('List._getitem_fast',)
    def spec(l: 'capnpy.list:List', i: 'i60'):
        requires(0 <= l._item_count)
        requires(l._item_type is not None)
        n = l._item_count
        if i < -n or i >= n:
            raise IndexError
        return l._getitem_fast(i + n if i < 0 else i)
    def impl(l, i):
        return l[i]


class length:
    prop = 'C18'
    def spec(l: 'capnpy.list:List'):
        requires(0 <= l._item_count)
        return l._item_count
    def impl(l):
        return len(l)


class slicing:
    prop = 'C18'
    opaque = ('List._getitem_fast',)
    cases = ((None, None, None), (1, None, None), (None, -1, None), (None, None, 2),
             (None, None, -1), (2, 4, None), (-3, -1, None), (5, 1, -2), (1, 100, 3))
    def spec(a, b, c, l: 'capnpy.list:List'):
        requires(0 <= l._item_count)
        return [l._getitem_fast(j) for j in range(*slice(a, b, c).indices(l._item_count))]
    def impl(a, b, c, l):
        return l[a:b:c]


class slicing_any:
    prop = 'C18'
    opaque = ('List._getitem_fast',)
    def spec(l: 'capnpy.list:List', a: 'i60', b: 'i60', c: 'i60'):
        requires(0 <= l._item_count)
        return [l._getitem_fast(j) for j in range(*slice(a, b, c).indices(l._item_count))]
    def impl(l, a, b, c):
        return l[a:b:c]


class fast_item:
    prop = 'C18'
    opaque = ('ItemType.read_item',)
    def spec(l: 'capnpy.list:List', i: 'u29'):
        return l._item_type.read_item(l, i)
    def impl(l, i):
        return l._getitem_fast(i)


def readitems(name, fmt, width, buf, off, n):
    return [rd(buf, fmt, off + width * i) for i in range(n)]


class same_items:
    """two lists of numbers are equal exactly when their items are, whatever is in the padding"""
    prop = 'C18,C10'
    cases = (('int8', 'b', 1, 2, 0), ('uint8', 'B', 1, 2, 1), ('int16', 'h', 2, 3, 1), ('uint16', 'H', 2, 3, 2),
             ('int32', 'i', 4, 4, 1), ('uint32', 'I', 4, 4, 2), ('int64', 'q', 8, 5, 1), ('uint64', 'Q', 8, 5, 2),
             ('int64', 'q', 8, 5, 9), ('int8', 'b', 1, 2, 9), ('int16', 'h', 2, 3, 9))
    def spec(name, fmt, width, tag, n, s1: 'capnpy.segment.segment:Segment', s2: 'capnpy.segment.segment:Segment',
             o1: 'u29', o2: 'u29'):
        requires(8*o1 + 8 + width*n <= len(s1.buf) and 8*o2 + 8 + width*n <= len(s2.buf))
        for i in range(n):
            if rd(s1.buf, fmt, 8*o1 + width * i) != rd(s2.buf, fmt, 8*o2 + width * i):
                return False
        return True
    def impl(name, fmt, width, tag, n, s1, s2, o1, o2):
        List = repo('capnpy.list:List')
        t = itemtype(name)
        return List.from_buffer(s1, 8*o1, tag, n, t) == List.from_buffer(s2, 8*o2, tag, n, t)


class same_items_bool:
    prop = 'C18,C10'
    cases = (0, 1, 2)
    def spec(n, s1: 'capnpy.segment.segment:Segment', s2: 'capnpy.segment.segment:Segment', o1: 'u29', o2: 'u29'):
        requires(8*o1 + 8 <= len(s1.buf) and 8*o2 + 8 <= len(s2.buf))
        for i in range(n):
            if (rd(s1.buf, "B", 8*o1) // 2**i) % 2 != (rd(s2.buf, "B", 8*o2) // 2**i) % 2:
                return False
        return True
    def impl(n, s1, s2, o1, o2):
        List = repo('capnpy.list:List')
        t = itemtype('bool')
        return List.from_buffer(s1, 8*o1, 1, n, t) == List.from_buffer(s2, 8*o2, 1, n, t)


class different_lists:
    """lists with a different length or a different type of items are not equal"""
    prop = 'C18,C10'
    cases = ('count', 'type')
    def spec(what, l: 'capnpy.list:List', o: 'capnpy.list:List', n1: 'u29', n2: 'u29'):
        if what == 'count':
            requires(n1 != n2)
        return False, True
    def impl(what, l, o, n1, n2):
        List = repo('capnpy.list:List')
        t = itemtype('int64')
        t2 = itemtype('int64') if what == 'count' else itemtype('uint64')
        a = List.from_buffer(l._seg, l._offset, 5, n1, t)
        b = List.from_buffer(o._seg, o._offset, 5, n2, t2)
        return a == b, a != b


class list_and_plain_list:
    """a capnp list is equal to the plain list of its items"""
    prop = 'C18,C10'
    cases = (0, 1, 2)
    def spec(n, s: 'capnpy.segment.segment:Segment', o: 'u29', x: 'i64', y: 'i64'):
        requires(8*o + 16 <= len(s.buf))
        a = rd(s.buf, "q", 8*o)
        b = rd(s.buf, "q", 8*o + 8)
        if n == 0:
            return True
        if n == 1:
            return a == x
        return a == x and b == y
    def impl(n, s, o, x, y):
        l = repo('capnpy.list:List').from_buffer(s, 8*o, 5, n, itemtype('int64'))
        return l == [x, y][:n]


CLASSES = {'void': 'VoidItemType', 'bool': 'BoolItemType', 'data': 'TextItemType'}

class item_type:
    """the item type chosen for an element type: element size and how it is announced"""
    prop = 'C18,C12,C04'
    cases = (('void', 0, 0), ('bool', -1, 1), ('int8', 1, 2), ('uint8', 1, 2), ('int16', 2, 3), ('uint16', 2, 3),
             ('int32', 4, 4), ('uint32', 4, 4), ('float32', 4, 4), ('int64', 8, 5), ('uint64', 8, 5),
             ('float64', 8, 5), ('data', 8, 6))
    def spec(name, length, tag):
        return CLASSES.get(name, 'PrimitiveItemType'), length, tag, True, name == 'data'
    def impl(name, length, tag):
        it = itemtype(name)
        return (it.__class__.__name__, it.item_length, it.size_tag, it.get_type() is T(name),
                name == 'data' and it.additional_size == 0)


class item_type_python:
    maxrec = 3
    """the convenience forms: Python types, classes, lists"""
    prop = 'C18,C12,C22'
    cases = ('int', 'float', 'bytes', 'text', 'enum', 'struct', 'nested', 'text type', 'two', 'none')
    def spec(what):
        if what == 'int':
            return 'PrimitiveItemType', 8, 5, T('int64')
        if what == 'float':
            return 'PrimitiveItemType', 8, 5, T('float64')
        if what == 'bytes':
            return 'TextItemType', 8, 6, T('text'), -1
        if what == 'text':
            return 'TextUnicodeItemType', 8, 6, T('text'), -1
        if what == 'enum':
            return 'EnumItemType', 2, 3, repo('capnpy.schema:ElementSize')
        if what == 'struct':
            n = repo('capnpy.schema:Node')
            return 'StructItemType', 8 * (n.__static_data_size__ + n.__static_ptrs_size__), 7, n
        if what == 'nested':
            return 'ListItemType', 8, 6, 'PrimitiveItemType', 2
        raises()
    def impl(what):
        f = repo('capnpy.list:ItemType').from_type
        if what == 'two':
            return f([int, int])
        if what == 'none':
            return f(None)
        if what == 'text type':
            return f(T('text'))
        if what == 'nested':
            it = f([T('int16')])
            return it.__class__.__name__, it.item_length, it.size_tag, it.inner_item_type.__class__.__name__, it.inner_item_type.item_length
        it = f({'int': int, 'float': float, 'bytes': bytes, 'text': str, 'enum': repo('capnpy.schema:ElementSize'),
                'struct': repo('capnpy.schema:Node')}[what])
        r = it.__class__.__name__, it.item_length, it.size_tag, it.get_type()
        if what == 'bytes' or what == 'text':
            return r + (it.additional_size,)
        return r
