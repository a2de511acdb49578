"""C03: bit layout of the 64 bit pointer words (encoding.html of Cap'n Proto)."""

def u(p, lo, n):
    """n bits of p starting at bit lo, unsigned"""
    return (p // 2**lo) % 2**n

def s30(x):
    """two's complement of a 30 bit field"""
    return x - 2**30 if x >= 2**29 else x


class kind:
    prop = 'C03'
    def spec(p: 'i64'):
        return p % 4
    def impl(p):
        return repo('capnpy.ptr:kind')(p)

class kind_py(kind):
    def spec(p: 'i64'):
        return p % 4
    def impl(p):
        return repo('capnpy.ptr:kind', py=True)(p)

class offset:
    prop = 'C03'
    def spec(p: 'i64'):
        return s30(u(p, 2, 30))
    def impl(p):
        return repo('capnpy.ptr:offset')(p)

class offset_py:
    prop = 'C03'
    def spec(p: 'i64'):
        return s30(u(p, 2, 30))
    def impl(p):
        return repo('capnpy.ptr:offset', py=True)(p)

class extra:
    prop = 'C03'
    def spec(p: 'i64'):
        return p // 2**32
    def impl(p):
        return repo('capnpy.ptr:extra')(p)

class extra_py:
    prop = 'C03'
    def spec(p: 'i64'):
        return p // 2**32
    def impl(p):
        return repo('capnpy.ptr:extra', py=True)(p)

class deref:
    prop = 'C03'
    def spec(p: 'i64', ofs: 'i60'):
        return ofs + 8 + 8*s30(u(p, 2, 30))
    def impl(p, ofs):
        return repo('capnpy.ptr:deref')(p, ofs)

class deref_py:
    prop = 'C03'
    def spec(p: 'i64', ofs: 'i60'):
        return ofs + 8 + 8*s30(u(p, 2, 30))
    def impl(p, ofs):
        return repo('capnpy.ptr:deref', py=True)(p, ofs)

class struct_sizes:
    prop = 'C03'
    def spec(p: 'i64'):
        return u(p, 32, 16), u(p, 48, 16)
    def impl(p):
        return repo('capnpy.ptr:struct_data_size')(p), repo('capnpy.ptr:struct_ptrs_size')(p)

class struct_sizes_py:
    prop = 'C03'
    def spec(p: 'i64'):
        return u(p, 32, 16), u(p, 48, 16)
    def impl(p):
        return (repo('capnpy.ptr:struct_data_size', py=True)(p),
                repo('capnpy.ptr:struct_ptrs_size', py=True)(p))

class list_fields:
    prop = 'C03'
    def spec(p: 'i64'):
        return u(p, 32, 3), u(p, 35, 29)
    def impl(p):
        return repo('capnpy.ptr:list_size_tag')(p), repo('capnpy.ptr:list_item_count')(p)

class list_fields_py:
    prop = 'C03'
    def spec(p: 'i64'):
        return u(p, 32, 3), u(p, 35, 29)
    def impl(p):
        return (repo('capnpy.ptr:list_size_tag', py=True)(p),
                repo('capnpy.ptr:list_item_count', py=True)(p))

class far_fields:
    prop = 'C03'
    def spec(p: 'i64'):
        return u(p, 2, 1), u(p, 3, 29), u(p, 32, 32)
    def impl(p):
        return (repo('capnpy.ptr:far_landing_pad')(p), repo('capnpy.ptr:far_offset')(p),
                repo('capnpy.ptr:far_target')(p))

class far_fields_py:
    prop = 'C03'
    def spec(p: 'i64'):
        return u(p, 2, 1), u(p, 3, 29), u(p, 32, 32)
    def impl(p):
        return (repo('capnpy.ptr:far_landing_pad', py=True)(p),
                repo('capnpy.ptr:far_offset', py=True)(p),
                repo('capnpy.ptr:far_target', py=True)(p))

class new_struct:
    prop = 'C03'
    def spec(offset: 'i30', data_size: 'u16', ptrs_size: 'u16'):
        return (offset % 2**30) * 4 + data_size * 2**32 + ptrs_size * 2**48
    def impl(offset, data_size, ptrs_size):
        return repo('capnpy.ptr:new_struct')(offset, data_size, ptrs_size) % 2**64

class new_struct_py:
    prop = 'C03'
    def spec(offset: 'i30', data_size: 'u16', ptrs_size: 'u16'):
        return (offset % 2**30) * 4 + data_size * 2**32 + ptrs_size * 2**48
    def impl(offset, data_size, ptrs_size):
        return repo('capnpy.ptr:new_struct', py=True)(offset, data_size, ptrs_size) % 2**64

class new_list:
    prop = 'C03'
    def spec(offset: 'i30', tag: 'u3', count: 'u29'):
        return 1 + (offset % 2**30) * 4 + tag * 2**32 + count * 2**35
    def impl(offset, tag, count):
        return repo('capnpy.ptr:new_list')(offset, tag, count) % 2**64

class new_list_py:
    prop = 'C03'
    def spec(offset: 'i30', tag: 'u3', count: 'u29'):
        return 1 + (offset % 2**30) * 4 + tag * 2**32 + count * 2**35
    def impl(offset, tag, count):
        return repo('capnpy.ptr:new_list', py=True)(offset, tag, count) % 2**64

class new_far:
    prop = 'C03'
    def spec(pad: 'u1', offset: 'u29', target: 'u32'):
        return 2 + pad * 4 + offset * 8 + target * 2**32
    def impl(pad, offset, target):
        return repo('capnpy.ptr:new_far')(pad, offset, target) % 2**64

class new_far_py:
    prop = 'C03'
    def spec(pad: 'u1', offset: 'u29', target: 'u32'):
        return 2 + pad * 4 + offset * 8 + target * 2**32
    def impl(pad, offset, target):
        return repo('capnpy.ptr:new_far', py=True)(pad, offset, target) % 2**64

class new_generic:
    prop = 'C03'
    def spec(kind: 'u2', offset: 'u30', extra: 'u31'):
        return kind + offset * 4 + extra * 2**32
    def impl(kind, offset, extra):
        return repo('capnpy.ptr:new_generic')(kind, offset, extra)

class new_generic_py:
    prop = 'C03'
    def spec(kind: 'u2', offset: 'u30', extra: 'u31'):
        return kind + offset * 4 + extra * 2**32
    def impl(kind, offset, extra):
        return repo('capnpy.ptr:new_generic', py=True)(kind, offset, extra)

class item_length:
    prop = 'C03'
    def spec(tag: 'u3'):
        # bytes per item of the list; -1: not a whole number of bytes / composite
        if tag == 0:
            return 0
        if tag == 1 or tag == 7:
            return -1
        if tag == 2:
            return 1
        if tag == 3:
            return 2
        if tag == 4:
            return 4
        return 8
    def impl(tag):
        return repo('capnpy.ptr:list_item_length')(tag)

class round_up:
    prop = 'C03'
    def spec(i: 'i60'):
        return (i + 7) // 8 * 8
    def impl(i):
        return repo('capnpy.ptr:round_up_to_word')(i)

class round_up_py:
    prop = 'C03'
    def spec(i: 'i60'):
        return (i + 7) // 8 * 8
    def impl(i):
        return repo('capnpy.ptr:round_up_to_word', py=True)(i)

class constants:
    prop = 'C03'
    def spec():
        return (0, 1, 2, 0, 1, 2, 3, 4, 5, 6, 7)
    def impl():
        ptr = repo('capnpy.ptr')
        return (ptr.STRUCT, ptr.LIST, ptr.FAR, ptr.LIST_SIZE_VOID, ptr.LIST_SIZE_BIT,
                ptr.LIST_SIZE_8, ptr.LIST_SIZE_16, ptr.LIST_SIZE_32, ptr.LIST_SIZE_64,
                ptr.LIST_SIZE_PTR, ptr.LIST_SIZE_COMPOSITE)

class constants_py:
    prop = 'C03'
    def spec():
        return (0, 1, 2, 0, 1, 2, 3, 4, 5, 6, 7)
    def impl():
        names = ('STRUCT', 'LIST', 'FAR', 'LIST_SIZE_VOID', 'LIST_SIZE_BIT', 'LIST_SIZE_8',
                 'LIST_SIZE_16', 'LIST_SIZE_32', 'LIST_SIZE_64', 'LIST_SIZE_PTR',
                 'LIST_SIZE_COMPOSITE')
        return tuple([repo('capnpy.ptr:' + n, py=True) for n in names])
