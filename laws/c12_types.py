"""The compiler supports a type, or says that it does not: every kind of type,
as a field, as an item of a list and as a constant."""
from model import struct, module, Ty, SlotField, GroupField, StructNode, EnumNode, ConstNode, InterfaceNode, Ann, FILE, KINDS

UNSUPPORTED = ('interface', 'anyPointer')


class unsupported_field:
    """a field of a type that is not supported is refused when the code is generated"""
    prop = 'C12'
    cases = ('py', 'pyx')

    def spec(mode):
        raises(NotImplementedError)

    def impl(mode):
        return struct(mode, [SlotField(b'x', Ty('interface'), 0)])


class unsupported_list:
    """... and a list of that type too"""
    prop = 'C12'
    cases = tuple((m, k) for k in UNSUPPORTED for m in ('py', 'pyx'))

    def spec(mode, kind):
        raises(NotImplementedError)

    def impl(mode, kind):
        return struct(mode, [SlotField(b'x', Ty('list', Ty(kind)), 0)])


class unsupported_node:
    """an interface in a file stops the compiler"""
    prop = 'C12'
    cases = tuple((m, k) for k in (0, 1) for m in ('py', 'pyx'))

    def spec(mode, k):
        raises(AssertionError)

    def impl(mode, k):
        return module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int8'), 0, 0)]),
                       InterfaceNode(2, b'I', 1 if k else FILE, b'S.' if k else b'')], mode)


CONSTS = (('void', None), ('bool', True), ('bool', False), ('int8', -128), ('int16', -300), ('int32', -70000),
          ('int64', -2**63), ('uint8', 255), ('uint16', 65535), ('uint32', 2**32 - 1), ('uint64', 2**64 - 1),
          ('float32', 0.5), ('float64', 0.1), ('float64', float('inf')), ('float64', float('-inf')),
          ('text', b"it's \"x\"\n\\"), ('data', b'\0\xff'), ('text', b''))


class constants:
    """a constant of a plain type is the value of the schema"""
    prop = 'C12'
    cases = tuple((m, k, v) for k, v in CONSTS for m in ('py', 'pyx'))

    def spec(mode, kind, v):
        return v, v

    def impl(mode, kind, v):
        M = module([
            ConstNode(7, b'c', FILE, Ty(kind), v),
            StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int8'), 0, 0)]),
            ConstNode(8, b'd', 1, Ty(kind), v, b'S.')], mode)
        return M.c, M.S.d


class nan_constant:
    prop = 'C12'
    cases = ('py', 'pyx')

    def spec(mode):
        return True

    def impl(mode):
        c = module([ConstNode(7, b'c', FILE, Ty('float64'), float('nan'))], mode).c
        return c != c


class empty_types:
    """types without fields and enums without enumerants are types too"""
    prop = 'C12,C19'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, n: 'u16'):
        return (), n, 0, 0

    def impl(mode, n):
        M = module([
            StructNode(1, b'S', FILE, 0, 0, []),
            StructNode(3, b'T', FILE, 1, 0, [SlotField(b'e', Ty('enum', None, 2), 0, 0)]),
            EnumNode(2, b'E', FILE, [])], mode)
        s = M.S()
        return M.E.__members__, int(M.T(n).e), s._data_size, s._ptrs_size
