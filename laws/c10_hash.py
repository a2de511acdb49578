"""C10: hashing in place gives the hash of the Python value."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE

Struct = repo("capnpy.struct_:Struct")
annotate = repo("capnpy.annotate")

M = 2**61 - 1                  # sys.hash_info.modulus of a 64-bit CPython
P1 = 11400714785074694791
P2 = 14029467366897019727
P5 = 2870177450012600261


def remainder(a):
    """a modulo M for 0 <= a < 2**64: 2**61 is 1 modulo M, so the digits in base 2**61 are added"""
    r = a // 2**61 + a % 2**61
    if r >= M:
        return r - M
    return r


def int_hash(v):
    """hash(int) of CPython: the sign and the remainder of abs(v) by M; never -1"""
    if v >= 0:
        return remainder(v)
    r = remainder(-v)
    if r == 1:
        return -2
    return -r


class inthash:
    prop = 'C10'
    worlds = ('compiled',)

    def spec(v: 'i64'):
        return int_hash(v)

    def impl(v):
        return repo('capnpy._hash:inthash')(v)


class longhash:
    prop = 'C10'
    worlds = ('compiled',)

    def spec(v: 'u64'):
        return remainder(v)

    def impl(v):
        return repo('capnpy._hash:longhash')(v)


def tuple_hash(hs):
    """hash(tuple) of CPython >= 3.8 from the hashes of the items (the xxHash of tupleobject.c)"""
    acc = P5
    for h in hs:
        acc = (acc + h % 2**64 * P2 % 2**64) % 2**64
        acc = (acc << 31) % 2**64 | acc >> 33
        acc = acc * P1 % 2**64
    acc = (acc + (len(hs) ^ P5 ^ 3527539)) % 2**64
    if acc == 2**64 - 1:
        return 1546275796
    if acc >= 2**63:
        return acc - 2**64
    return acc


class tuplehash0:
    prop = 'C10'
    worlds = ('compiled',)
    strict64 = True

    def spec():
        return tuple_hash([])

    def impl():
        return repo('capnpy._hash:tuplehash')([], 0)


class tuplehash1:
    prop = 'C10'
    worlds = ('compiled',)
    strict64 = True

    def spec(a: 'i64'):
        requires(a != -1)
        return tuple_hash([a])

    def impl(a):
        return repo('capnpy._hash:tuplehash')([a], 1)


class tuplehash2:
    prop = 'C10'
    worlds = ('compiled',)
    strict64 = True

    def spec(a: 'i64', b: 'i64'):
        requires(a != -1 and b != -1)
        return tuple_hash([a, b])

    def impl(a, b):
        return repo('capnpy._hash:tuplehash')([a, b], 2)


class tuplehash3:
    prop = 'C10'
    worlds = ('compiled',)
    strict64 = True

    def spec(a: 'i64', b: 'i64', c: 'i64'):
        requires(a != -1 and b != -1 and c != -1)
        return tuple_hash([a, b, c])

    def impl(a, b, c):
        return repo('capnpy._hash:tuplehash')([a, b, c], 3)


# ---------------------------------------------------------------- generated classes

def wf(s):
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(s._seg.buf))
    return s


def view(cls, s):
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj


def fields(kind):
    if kind in ('text', 'data'):
        return [SlotField(b'fieldA', Ty(kind), 1), SlotField(b'b', Ty('int16'), 2, 0), SlotField(b'c', Ty(kind), 0)]
    if kind == 'float64':
        return [SlotField(b'fieldA', Ty(kind), 1, 0.0), SlotField(b'b', Ty('int16'), 2, 0),
                SlotField(b'c', Ty(kind), 2, 0.0)]
    if kind == 'enum':
        return [SlotField(b'fieldA', Ty(kind, None, 2), 1, 0), SlotField(b'b', Ty('int16'), 2, 0),
                SlotField(b'c', Ty(kind, None, 2), 2, 0)]
    if kind == 'void':
        return [SlotField(b'fieldA', Ty(kind)), SlotField(b'b', Ty('int16'), 2, 0), SlotField(b'c', Ty(kind))]
    return [SlotField(b'fieldA', Ty(kind), 1, 0), SlotField(b'b', Ty('int16'), 2, 0), SlotField(b'c', Ty(kind), 40, 0)]


def keyed(mode, kind, key, text='bytes'):
    anns = [Ann(annotate.key, key)] if key is not None else None
    return module([StructNode(1, b'S', FILE, 8, 2, fields(kind), annotations=anns),
                   EnumNode(2, b'E', FILE, [b'red', b'green'])], mode, text).S


INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
KINDS = INTS + ('bool', 'float64', 'text', 'data', 'enum', 'void')


class key_hash_one:
    """a struct with one key field hashes as the tuple of this field"""
    prop = 'C10'
    hashes = True
    strict64 = True
    cases = tuple((m, k) for k in KINDS if k not in ('text', 'data') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return hash((view(keyed(mode, kind, None), s).field_a,))

    def impl(mode, kind, s):
        s = wf(s)
        return hash(view(keyed(mode, kind, b'fieldA'), s))


class key_hash_text:
    """... and of text or data"""
    prop = 'C10'
    hashes = True
    cases = tuple((m, k) for k in ('text', 'data') for m in ('py', 'pyx'))

    def spec(mode, kind, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return hash((view(keyed(mode, kind, None), s).field_a,))

    def impl(mode, kind, s):
        s = wf(s)
        return hash(view(keyed(mode, kind, b'fieldA'), s))


class key_hash_more:
    """... and the key may have several fields, in any order, or all of them"""
    prop = 'C10'
    hashes = True
    cases = tuple((m, k, key) for k, key in (('int32', b'c, fieldA'), ('uint64', b'*'), ('bool', b' fieldA,b ,c'),
                                             ('text', b'fieldA, b')) for m in ('py', 'pyx'))

    def spec(mode, kind, key, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        p = view(keyed(mode, kind, None), s)
        if key == b'c, fieldA':
            return hash((p.c, p.field_a))
        if key == b'fieldA, b':
            return hash((p.field_a, p.b))
        return hash((p.field_a, p.b, p.c))

    def impl(mode, kind, key, s):
        s = wf(s)
        return hash(view(keyed(mode, kind, key), s))


class key_hash_unicode:
    prop = 'C10'
    hashes = True
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        p = view(keyed(mode, 'text', None, 'unicode'), s)
        return hash((p.field_a, p.b))

    def impl(mode, s):
        s = wf(s)
        return hash(view(keyed(mode, 'text', b'fieldA,b', 'unicode'), s))


class key_equal:
    """two structs are equal exactly if their key fields are"""
    prop = 'C10'
    maxrec = 2
    opaque = ('Segment.read_str',)
    cases = tuple((m, k, key) for k, key in (('int32', b'c, fieldA'), ('uint64', b'*'), ('bool', b'fieldA'),
                                             ('text', b'fieldA'), ('float64', b'fieldA'), ('enum', b'c'))
                  for m in ('py', 'pyx'))

    def spec(mode, kind, key, s: 'capnpy.struct_:Struct', t: 'capnpy.struct_:Struct'):
        s, t = wf(s), wf(t)
        S = keyed(mode, kind, None)
        p, q = view(S, s), view(S, t)
        if key == b'c, fieldA':
            r = (p.c, p.field_a) == (q.c, q.field_a)
        elif key == b'fieldA':
            r = (p.field_a,) == (q.field_a,)
        elif key == b'c':
            r = (p.c,) == (q.c,)
        else:
            r = (p.field_a, p.b, p.c) == (q.field_a, q.b, q.c)
        return r, not r

    def impl(mode, kind, key, s, t):
        s, t = wf(s), wf(t)
        S = keyed(mode, kind, key)
        p, q = view(S, s), view(S, t)
        return p == q, p != q


class key_tuple:
    """a struct is equal to the tuple of its key fields, and to nothing else"""
    prop = 'C10'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', a: 'int', c: 'int'):
        s = wf(s)
        p = view(keyed(mode, 'int32', None), s)
        r = p.field_a == a and p.c == c
        return r, not r, False, False

    def impl(mode, s, a, c):
        s = wf(s)
        p = view(keyed(mode, 'int32', b'fieldA, c'), s)
        return p == (a, c), p != (a, c), p == a, p == [a, c]


class no_key:
    """structs without a key are neither equal, nor different, nor hashable"""
    prop = 'C10'
    cases = tuple((m, op) for op in ('==', '!=', 'hash', '<') for m in ('py', 'pyx'))

    def spec(mode, op, s: 'capnpy.struct_:Struct', t: 'capnpy.struct_:Struct'):
        s, t = wf(s), wf(t)
        raise TypeError

    def impl(mode, op, s, t):
        s, t = wf(s), wf(t)
        S = keyed(mode, 'int32', b'fieldA' if op == '<' else None)
        p, q = view(S, s), view(S, t)
        if op == '==':
            return p == q
        if op == '!=':
            return p != q
        if op == '<':
            return p < q
        return hash(p)


class key_union:
    """the hash of a union member that is not there is refused, like reading it"""
    prop = 'C10,C07'
    hashes = True
    cases = tuple((m, k, t) for k, t in (('text', 'bytes'), ('text', 'unicode'), ('int32', 'bytes'))
                  for m in ('py', 'pyx'))

    def spec(mode, kind, text, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        p = view(union(mode, kind, None, text), s)
        return hash((p.x,))

    def impl(mode, kind, text, s):
        s = wf(s)
        return hash(view(union(mode, kind, b'x', text), s))


def union(mode, kind, key, text):
    anns = [Ann(annotate.key, key)] if key is not None else None
    off = 3 if kind == 'int32' else 1
    return module([StructNode(1, b'S', FILE, 2, 2, [
        SlotField(b'x', Ty(kind), off, 0 if kind == 'int32' else None, disc=0),
        SlotField(b'y', Ty('int16'), 1, 0, disc=1)], dc=2, do=0, annotations=anns)], mode, text).S


class key_group:
    """a group with a key is compared and hashed by its own fields"""
    prop = 'C10'
    hashes = True
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', x: 'i32', y: 'i32'):
        s = wf(s)
        g = view(grouped(mode, False), s).pos
        return hash((g.x, g.y)), g.x == x and g.y == y

    def impl(mode, s, x, y):
        s = wf(s)
        g = view(grouped(mode, True), s).pos
        return hash(g), g == (x, y)


def grouped(mode, key):
    return module([
        StructNode(1, b'S', FILE, 2, 1, [SlotField(b'a', Ty('int32'), 0, 0), GroupField(b'pos', 2)]),
        StructNode(2, b'pos', 1, 2, 1, [SlotField(b'x', Ty('int32'), 1, 0), SlotField(b'y', Ty('int32'), 2, 0)],
                   isGroup=True, prefix=b'S.', annotations=[Ann(annotate.key, b'x, y')] if key else None)], mode).S


class key_of_nothing:
    """$Py.key("*") of a struct without fields: all objects are equal"""
    prop = 'C10,C12'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        return hash(()) if mode == 'py' else 5740354900026072187, True, False

    def impl(mode, s):
        s = wf(s)
        S = module([StructNode(1, b'S', FILE, 0, 0, None, annotations=[Ann(annotate.key, b'*')])], mode).S
        return hash(view(S, s)), view(S, s) == (), view(S, s) != ()
