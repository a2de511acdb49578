"""C17: an object is compact only if everything below it follows in order without holes."""

Struct = repo('capnpy.struct_:Struct')
endof = repo('capnpy.segment.endof:endof')


def u(p, lo, n):
    return (p // 2**lo) % 2**n


def s30(x):
    return x - 2**30 if x >= 2**29 else x


def near(p, at):
    return at + 8 + 8 * s30(u(p, 2, 30))


def word(seg, at):
    if at < 0 or at > len(seg.buf) - 8:
        raise IndexError
    return rd(seg.buf, 'q', at)


def pointers(seg, at, n, end):
    """the children of the n pointers at `at` must follow each other, from `end` on"""
    requires(n == 0 or 0 <= at and at + 8*n <= len(seg.buf))
    for i in range(n):
        p = word(seg, at + 8*i)
        if p == 0:
            continue
        if p % 4 == 2:
            try:                        # law far_is_not_compact
                requires(again('endof', seg, p, at + 8*i) == -1)
            except:
                undefined()
            return -1
        if near(p, at + 8*i) != end:
            return -1
        if p % 4 == 3:
            try:                        # law capability_is_refused
                again('endof', seg, p, at + 8*i)
            except:
                raises()
            undefined()
        end = again('endof', seg, p, at + 8*i)
        if end == -1:
            return -1                   # not compact below
    return end


def signed30(neg, o):
    """any signed 30-bit offset"""
    return o - 2**29 if neg else o


def field30(neg, o):
    return 2**29 + o if neg else o


def struct_ptr(off, d, p):
    return 4 * off + 2**32 * d + 2**48 * p


def signed(p):
    return p - 2**64 * (p // 2**63)


class struct_end:
    prop = 'C17'
    recvalue = 'endof'
    cases = ((0, False), (1, False), (2, False), (0, True), (1, True), (2, True))
    more = ((3, False),)
    def spec(n, neg, seg: 'capnpy.segment.segment:Segment', w: 'u28', o: 'u29', d: 'u16'):
        start = 8*w + 8 + 8*signed30(neg, o)
        return pointers(seg, start + 8*d, n, start + 8*d + 8*n)
    def impl(n, neg, seg, w, o, d):
        return endof(seg, signed(struct_ptr(field30(neg, o), d, n)), 8*w)


def list_ptr(off, tag, count):
    return 1 + 4 * off + 2**32 * tag + 2**35 * count


class pointer_list_end:
    prop = 'C17'
    recvalue = 'endof'
    cases = ((0, False), (1, False), (2, False), (0, True), (1, True), (2, True))
    more = ((3, False),)
    def spec(n, neg, seg: 'capnpy.segment.segment:Segment', w: 'u28', o: 'u29'):
        start = 8*w + 8 + 8*signed30(neg, o)
        return pointers(seg, start, n, start + 8*n)
    def impl(n, neg, seg, w, o):
        return endof(seg, signed(list_ptr(field30(neg, o), 6, n)), 8*w)


class primitive_list_end:
    """lists without pointers end with their last element, rounded up to a word"""
    prop = 'C17'
    cases = ((0, 0, False), (1, 1, False), (2, 8, False), (3, 16, False), (4, 32, False), (5, 64, False),
             (0, 0, True), (1, 1, True), (2, 8, True), (3, 16, True), (4, 32, True), (5, 64, True))
    def spec(tag, bits, neg, seg: 'capnpy.segment.segment:Segment', w: 'u28', o: 'u29', n: 'u29'):
        start = 8*w + 8 + 8*signed30(neg, o)
        return start + 8 * ((bits * n + 63) // 64)
    def impl(tag, bits, neg, seg, w, o, n):
        return endof(seg, signed(list_ptr(field30(neg, o), tag, n)), 8*w)


class struct_list_end:
    """composite lists: the tag word, all the bodies, then the children in order"""
    prop = 'C17'
    recvalue = 'endof'
    cases = ((0, 1, False), (1, 1, False), (1, 2, False), (2, 1, False), (1, 1, True))
    more = ((2, 2, False), (3, 1, False))
    def spec(n, p, neg, seg: 'capnpy.segment.segment:Segment', w: 'u28', o: 'u29', words: 'u29', d: 'u16'):
        start = 8*w + 8 + 8*signed30(neg, o)
        requires(0 <= start and start + 8 <= len(seg.buf))
        given(seg.buf, start, 4*n + 2**32 * d + 2**48 * p)
        end = start + 8 + 8*n*(d + p)
        for i in range(n):
            end = pointers(seg, start + 8 + 8*i*(d + p) + 8*d, p, end)
            if end == -1:
                return -1
        return end
    def impl(n, p, neg, seg, w, o, words, d):
        return endof(seg, signed(list_ptr(field30(neg, o), 7, words)), 8*w)


class plain_struct_list_end:
    """composite lists without pointers, of any length"""
    prop = 'C17'
    cases = (False, True)
    def spec(neg, seg: 'capnpy.segment.segment:Segment', w: 'u28', o: 'u29', words: 'u29', n: 'u29', d: 'u16'):
        start = 8*w + 8 + 8*signed30(neg, o)
        requires(0 <= start and start + 8 <= len(seg.buf))
        given(seg.buf, start, 4*n + 2**32 * d)
        return start + 8 + 8*n*d
    def impl(neg, seg, w, o, words, n, d):
        return endof(seg, signed(list_ptr(field30(neg, o), 7, words)), 8*w)


class far_is_not_compact:
    prop = 'C17'
    def spec(seg: 'capnpy.segment.segment:Segment', w: 'u28', p: 'u64'):
        requires(p % 4 == 2)
        return -1
    def impl(seg, w, p):
        return endof(seg, signed(p), 8*w)


class capability_is_refused:
    prop = 'C17'
    def spec(seg: 'capnpy.segment.segment:Segment', w: 'u28', p: 'u64'):
        requires(p % 4 == 3)
        raises()
    def impl(seg, w, p):
        return endof(seg, signed(p), 8*w)


class asks_about_itself:
    """_get_end and _is_compact are about the object itself"""
    prop = 'C17'
    recvalue = 'endof'
    opaque = ('capnpy.segment.endof.endof',)
    def spec(seg: 'capnpy.segment.segment:Segment', w: 'u28', d: 'u16', p: 'u15'):
        requires(8*w + 8*d + 8*p <= len(seg.buf))
        e = endof(seg, 2**32 * d + 2**48 * p, 8*w - 8)
        if e == -1:
            return e, False
        return e, True
    def impl(seg, w, d, p):
        o = Struct.from_buffer(seg, 8*w, d, p)
        if o._is_compact():
            return o._get_end(), True
        return o._get_end(), False
