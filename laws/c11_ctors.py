"""Constructors of generated classes: the accessors of S(x=v) give back v."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE

SegmentBuilder = repo('capnpy.segment.builder:SegmentBuilder')

INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
LO = {'int8': -2**7, 'int16': -2**15, 'int32': -2**31, 'int64': -2**63, 'uint8': 0, 'uint16': 0, 'uint32': 0,
      'uint64': 0}
HI = {'int8': 2**7, 'int16': 2**15, 'int32': 2**31, 'int64': 2**63, 'uint8': 2**8, 'uint16': 2**16,
      'uint32': 2**32, 'uint64': 2**64}
SIZE = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8}


class int_ctor:
    """whatever the offset of the field and the size of the struct"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k in INTS for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'int', off: 'u19', dw: 'u16'):
        requires(LO[kind] <= v and v < HI[kind])
        requires((off + 1) * SIZE[kind] <= 8 * dw)
        return v

    def impl(mode, kind, v, off, dw):
        S = struct(mode, [SlotField(b'x', Ty(kind), off, 0)], dw=dw, pc=0)
        return S(x=v).x


class int_ctor_default:
    prop = 'C11'
    track = ()
    strict64 = True
    cases = tuple((m, k, d) for k, d in (('int8', -128), ('int16', 7), ('int32', -2), ('int64', 2**62),
                                         ('uint8', 255), ('uint16', 40000), ('uint32', 2**32 - 1), ('uint64', 2**63),
                                         ('int64', -1))
                  for m in ('py', 'pyx'))

    def spec(mode, kind, d, v: 'int', off: 'u19', dw: 'u16'):
        requires(LO[kind] <= v and v < HI[kind])
        requires((off + 1) * SIZE[kind] <= 8 * dw)
        return v, d

    def impl(mode, kind, d, v, off, dw):
        S = struct(mode, [SlotField(b'x', Ty(kind), off, d, True)], dw=dw, pc=0)
        return S(x=v).x, S().x


class int_ctor_range:
    """a value that the field cannot hold is refused"""
    prop = 'C11,C04'
    track = ()
    strict64 = True
    cases = tuple((m, k) for k in INTS for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'int'):
        requires(v < LO[kind] or v >= HI[kind])
        raises()

    def impl(mode, kind, v):
        S = struct(mode, [SlotField(b'x', Ty(kind), 8 // SIZE[kind], 0)], dw=2, pc=0)
        return S(x=v).x


class bool_ctor:
    prop = 'C11'
    track = ()
    cases = tuple((m, r, d) for r in (0, 5) for d in (None, False, True) for m in ('py', 'pyx'))

    def spec(mode, r, d, v: 'bool', w: 'bool', byte: 'u19', dw: 'u16'):
        requires(byte < 8 * dw)
        if byte < 512: # the first buffer of the builder
            return v, w, bool(d)
        return v, w, bool(d)

    def impl(mode, r, d, v, w, byte, dw):
        S = struct(mode, [SlotField(b'x', Ty('bool'), 8 * byte + r, bool(d), d is not None),
                          SlotField(b'y', Ty('bool'), 8 * byte + r + 2, False)], dw=dw, pc=0)
        s = S(x=v, y=w)
        return s.x, s.y, S(y=w).x


class float_ctor:
    prop = 'C11'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, v: 'float', off: 'u16', dw: 'u16'):
        requires(off + 1 < dw)
        return v, 0.0

    def impl(mode, v, off, dw):
        S = struct(mode, [SlotField(b'x', Ty('float64'), off, 0.0), SlotField(b'y', Ty('float64'), off + 1, 0.0)],
                   dw=dw, pc=0)
        s = S(x=v)
        return s.x, s.y


class enum_ctor:
    prop = 'C11,C19'
    track = ()
    cases = tuple((m, d) for d in (0, 2) for m in ('py', 'pyx'))

    def spec(mode, d, v: 'int', off: 'u18', dw: 'u16'):
        requires(0 <= v and v < 65536)
        requires(off < 4 * dw)
        return v, d

    def impl(mode, d, v, off, dw):
        m = module([StructNode(1, b'S', FILE, dw, 0, [SlotField(b'x', Ty('enum', None, 2), off, d, d != 0)]),
                    EnumNode(2, b'E', FILE, [b'red', b'green', b'blue'])], mode)
        x = m.S(x=m.E._new(v)).x
        if x.__class__ is not m.E:
            raise TypeError
        return int(x), int(m.S().x)


class void_ctor:
    prop = 'C11'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode):
        return None, 0

    def impl(mode):
        s = struct(mode, [SlotField(b'x', Ty('void')), SlotField(b'y', Ty('int8'), 0, 0)], pc=0)()
        return s.x, s.y


class text_ctor:
    """an argument of a text or data field comes back, and None is a null pointer"""
    prop = 'C11,C22'
    track = ()
    cases = tuple((m, k) for k in ('text', 'data') for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'bytes'):
        if v is None:
            return None, False, b'', None
        requires(len(v) < 2**29 - 1)
        return v, True, v, None

    def impl(mode, kind, v):
        S = struct(mode, [SlotField(b'x', Ty(kind), 1), SlotField(b'y', Ty('text'), 0)], dw=1, pc=2)
        s = S(x=v)
        return s.x, s.has_x(), s.get_x(), s.y


class text_ctor_at:
    """... whatever the number of the pointer and the size of the struct"""
    prop = 'C11,C22'
    calls = ('SegmentBuilder.alloc_text', 'SegmentBuilder.alloc_data')
    track = ('call', 'store')
    cases = tuple((m, k) for k in ('text', 'data') for m in ('py', 'pyx'))

    def spec(mode, kind, v: 'bytes', dw: 'u16', pc: 'u16', off: 'u16'):
        requires(off + 1 < pc)
        b = SegmentBuilder()
        b.allocate(8 * dw + 8 * pc)
        if kind == 'data':
            b.alloc_data(8 * dw + 8 * off, v)
        else:
            b.alloc_text(8 * dw + 8 * off, v)
        b.alloc_text(8 * dw + 8 * off + 8, None)

    def impl(mode, kind, v, dw, pc, off):
        struct(mode, [SlotField(b'x', Ty(kind), off), SlotField(b'y', Ty('text'), off + 1)], dw=dw, pc=pc)(v)


class unicode_ctor_at:
    """... and the text that is stored is the UTF-8 of the argument"""
    prop = 'C11,C22'
    calls = ('SegmentBuilder.alloc_text', 'SegmentBuilder.alloc_data')
    track = ('call', 'store')
    cases = ('py', 'pyx')

    def spec(mode, v: 'str', dw: 'u16', pc: 'u16', off: 'u16'):
        requires(off + 1 < pc)
        b = SegmentBuilder()
        b.allocate(8 * dw + 8 * pc)
        b.alloc_text(8 * dw + 8 * off, None if v is None else v.encode('utf-8'))
        b.alloc_text(8 * dw + 8 * off + 8, None)

    def impl(mode, v, dw, pc, off):
        struct(mode, [SlotField(b'x', Ty('text'), off), SlotField(b'y', Ty('text'), off + 1)], dw=dw, pc=pc,
               text='unicode')(v)


class two_ctor:
    """fields do not disturb each other"""
    prop = 'C11'
    track = ()
    strict64 = True
    cases = ('py', 'pyx')

    def spec(mode, a: 'i8', b: 'bool', c: 'u16', d: 'i32', e: 'bytes', f: 'i64', g: 'bytes'):
        requires(e is not None and len(e) < 2**29 - 1)
        requires(g is not None and len(g) < 2**29 - 1)
        return a, b, c, d, e, f, g

    def impl(mode, a, b, c, d, e, f, g):
        S = struct(mode, [SlotField(b'a', Ty('int8'), 0, 0), SlotField(b'b', Ty('bool'), 9, False),
                          SlotField(b'c', Ty('uint16'), 1, 0), SlotField(b'd', Ty('int32'), 1, 0),
                          SlotField(b'e', Ty('text'), 0), SlotField(b'f', Ty('int64'), 1, 0),
                          SlotField(b'g', Ty('data'), 1)], dw=2, pc=2)
        s = S(a, b, c, d, e, f, g)
        return s.a, s.b, s.c, s.d, s.e, s.f, s.g


class float_ctor_default:
    """a float field with a default: the XOR is done on the bits"""
    prop = 'C11'
    track = ()
    cases = tuple((m, d) for d in (1.5, -0.0, float('inf')) for m in ('py', 'pyx'))

    def spec(mode, d, x: 'float'):
        return x, d

    def impl(mode, d, x):
        S = struct(mode, [SlotField(b'x', Ty('float64'), 0, d, True)])
        return S(x).x, S().x


class float32_ctor_default:
    """... of 32 bits too"""
    prop = 'C11'
    track = ('store',)
    cases = ('py', 'pyx')

    def spec(mode, x: 'float'):
        b = SegmentBuilder()
        b.allocate(8)
        b.write_float32(4, x)
        b.write_float32(0, repo('capnpy.util:float32_xor', py=True)(x, 1.5))

    def impl(mode, x):
        S = struct(mode, [SlotField(b'x', Ty('float32'), 1, 0.0), SlotField(b'y', Ty('float32'), 0, 1.5, True)])
        S(x, x)
