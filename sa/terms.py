"""Abstract values.

Integers live in a linear normal form over hash-consed atoms (value numbers).
Shifts, masks and C wrap-around are expressed with the single non-linear atom
`fdiv(x, c)` (floor division by a constant), which makes bit fields canonical:
the digits of a 64 bit word p are F(k) - 2^w*F(k+w) with F(k) = fdiv(p, 2^k).
"""
from functools import reduce
from math import gcd

_table = {}
_next = [0]


class Atom(object):
    __slots__ = ('op', 'args', 'lo', 'hi', 'kind', 'id', 'typ')

    def __repr__(self):
        return show(self)


def atom(op, *args, lo=None, hi=None, kind='obj', typ=None):
    key = (op, args)
    a = _table.get(key)
    if a is None:
        a = Atom()
        a.op, a.args = op, args
        a.lo, a.hi, a.kind, a.typ = lo, hi, kind, typ
        a.id = _next[0]
        _next[0] += 1
        _table[key] = a
    else:
        if lo is not None and (a.lo is None or lo > a.lo):
            a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi):
            a.hi = hi
        if a.kind == 'obj' and kind != 'obj':
            a.kind = kind
        if a.typ is None:
            a.typ = typ
    return a


def reset():
    _table.clear()
    _range_cache.clear()


_fresh = [0]


def fresh(name, **kw):
    _fresh[0] += 1
    return atom('fresh', name, _fresh[0], **kw)


class Lin(object):
    """sum(coef*atom) + const, with at least one atom"""
    __slots__ = ('terms', 'const', '_h')

    def __init__(self, terms, const):
        self.terms = terms            # tuple of (atom, coef), sorted by id
        self.const = const
        self._h = hash((terms, const))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and \
            self.const == o.const and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def mk(d, const):
    t = tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda x: x[0].id))
    if not t:
        return const
    return Lin(t, const)


def is_int(v):
    return isinstance(v, Lin) or (isinstance(v, int) and not isinstance(v, bool)) or \
        (isinstance(v, Atom) and v.kind == 'int')


def lin(v):
    """-> (dict, const)"""
    if isinstance(v, Lin):
        return dict(v.terms), v.const
    if isinstance(v, bool):
        return {}, int(v)
    if isinstance(v, int):
        return {}, v
    if isinstance(v, Atom):
        return {v: 1}, 0
    raise TypeError(v)


def as_lin(v):
    if isinstance(v, Atom):
        return Lin(((v, 1),), 0)
    if isinstance(v, bool):
        return int(v)
    return v


def iatom(*a, **kw):
    return as_lin(atom(*a, kind='int', **kw))


def add(a, b, k=1):
    da, ca = lin(a)
    db, cb = lin(b)
    for x, c in db.items():
        da[x] = da.get(x, 0) + k * c
    return mk(da, ca + k * cb)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return add(0, a, -1)


def scale(a, k):
    d, c = lin(a)
    return mk({x: v * k for x, v in d.items()}, c * k)


def mul(a, b):
    if not isinstance(a, (Lin, Atom)):
        return scale(b, int(a))
    if not isinstance(b, (Lin, Atom)):
        return scale(a, int(b))
    da, ca = lin(a)
    db, cb = lin(b)
    out = {}
    for x, c in da.items():
        if cb:
            out[x] = out.get(x, 0) + c * cb
        for y, e in db.items():
            m = monomial(x, y)
            out[m] = out.get(m, 0) + c * e
    if ca:
        for y, e in db.items():
            out[y] = out.get(y, 0) + ca * e
    return mk(out, ca * cb)


def factors(x):
    return x.args if x.op == 'mul' else (x,)


def monomial(x, y):
    f = tuple(sorted(factors(x) + factors(y), key=lambda a: a.id))
    lo, hi = 1, 1
    for a in f:
        l2, h2 = a.lo, a.hi
        if lo is None or hi is None or l2 is None or h2 is None:
            if lo is not None and l2 is not None and lo >= 0 and l2 >= 0:
                lo, hi = lo * l2, None
            else:
                lo = hi = None
        else:
            c = [lo * l2, lo * h2, hi * l2, hi * h2]
            lo, hi = min(c), max(c)
    return atom('mul', *f, lo=lo, hi=hi, kind='int')


def base_div(x):
    """x as fdiv(base, c)"""
    if x.op == 'fdiv':
        return x.args
    return (as_lin(x), 1)


def floordiv(a, c):
    if isinstance(c, Lin) or isinstance(c, Atom):
        if not isinstance(a, (Lin, Atom)) and a == 0:
            return 0
        return iatom('fdivv', as_lin(a), as_lin(c))
    c = int(c)
    if c == 0:
        return iatom('fdivv', as_lin(a), 0)
    if c < 0:
        return floordiv(neg(a), -c)
    if c == 1:
        return as_lin(a)
    if not isinstance(a, (Lin, Atom)):
        return int(a) // c
    l2, h2 = rng(a)
    if l2 is not None and h2 is not None and l2 // c == h2 // c:
        return l2 // c
    hi_part, lo_part = split_digits(a, c)
    if hi_part is not None:
        l2, h2 = rng(lo_part)
        if l2 is not None and h2 is not None and l2 // c == h2 // c:
            return add(hi_part, l2 // c)
        return add(hi_part, _floordiv(lo_part, c))
    return _floordiv(a, c)


def digits(v):
    """v as sum(beta * digit) + const; the digits of one base are independent"""
    groups = {}
    for x, co in v.terms:
        b, k = base_div(x)
        g = groups.setdefault(b, {})
        g[k] = g.get(k, 0) + co
    out = []
    for b, ks in groups.items():
        order = sorted(ks)
        chain = all(order[i + 1] % order[i] == 0 for i in range(len(order) - 1))
        if not chain:
            for k in order:
                out.append((_f(b, k), ks[k]))
            continue
        beta = 0
        for i, k in enumerate(order):
            beta = ks[k] + (1 if i == 0 else k // order[i - 1]) * beta
            if i + 1 < len(order):
                dig = sub(_f(b, k), scale(_f(b, order[i + 1]), order[i + 1] // k))
            else:
                dig = _f(b, k)
            if beta:
                out.append((dig, beta))
    return out


def _f(b, k):
    if k == 1:
        return b
    for x in (floordiv_atom(b, k),):
        return x


def floordiv_atom(b, k):
    lo, hi = rng(b)
    return as_lin(atom('fdiv', as_lin(b), k, lo=None if lo is None else lo // k,
                       hi=None if hi is None else hi // k, kind='int'))


def split_digits(a, c):
    if not isinstance(a, Lin):
        return None, None
    hi_part, lo_part = 0, a.const
    n = 0
    for dig, beta in digits(a):
        if beta % c == 0:
            hi_part = add(hi_part, scale(dig, beta // c))
            n += 1
        else:
            lo_part = add(lo_part, scale(dig, beta))
    if not n:
        return None, None
    return hi_part, lo_part


def _floordiv(a, c):
    if not isinstance(a, (Lin, Atom)):
        return int(a) // c
    d, k = lin(a)
    out, rest = {}, {}
    for x, v in d.items():
        q, r = divmod(v, c)
        # keep the remainder small and canonical
        if 2 * r > c:
            q, r = q + 1, r - c
        if q:
            out[x] = q
        if r:
            rest[x] = r
    q, k = divmod(k, c)
    if not rest:
        return mk(out, q)
    g = reduce(gcd, rest.values(), c)
    if g > 1:
        # (g*y + k)//(g*c') == (y + k//g)//c'
        return add(mk(out, q), floordiv(mk({x: v // g for x, v in rest.items()}, k // g), c // g))
    r = mk(rest, k)
    if r.terms[0][1] < 0:
        # floor(-x/c) == -floor((x + c - 1)/c)
        return sub(mk(out, q), floordiv(sub(c - 1, r), c))
    # hermite: floor((y + c/2)/c) = floor(2y/c) - floor(y/c)
    if c % 2 == 0 and k == c // 2:
        y = mk(rest, 0)
        return add(mk(out, q), sub(floordiv(y, c // 2), floordiv(y, c)))
    # nested division
    if k == 0 and len(rest) == 1:
        (x, v), = rest.items()
        if v == 1 and x.op == 'fdiv':
            r, c = x.args[0], x.args[1] * c
    lo, hi = rng(r)
    qlo = None if lo is None else lo // c
    qhi = None if hi is None else hi // c
    if qlo is not None and qlo == qhi:
        return add(mk(out, q), qlo)
    f = atom('fdiv', as_lin(r), c, lo=qlo, hi=qhi, kind='int')
    return add(mk(out, q), f)


def mod(a, c):
    if isinstance(c, (Lin, Atom)):
        return iatom('modv', as_lin(a), as_lin(c))
    if c == 0:
        return iatom('modv', as_lin(a), 0)
    if not isinstance(a, (Lin, Atom)):
        return int(a) % c
    return sub(a, scale(floordiv(a, c), c))


# -- ranges -----------------------------------------------------------------
_range_cache = {}


def rng(v):
    """interval of an integer value (tight on the digits of one word)"""
    if isinstance(v, bool):
        return int(v), int(v)
    if isinstance(v, int):
        return v, v
    if isinstance(v, Atom):
        return v.lo, v.hi
    r = _range_cache.get(v)
    if r is not None:
        return r
    # group the atoms by base
    groups = {}
    for x, c in v.terms:
        b, k = base_div(x)
        groups.setdefault(b, {})[k] = groups.setdefault(b, {}).get(k, 0) + c
    lo = hi = v.const
    for b, ks in groups.items():
        bl, bh = group_range(b, ks)
        lo = None if lo is None or bl is None else lo + bl
        hi = None if hi is None or bh is None else hi + bh
    l2, h2 = residue_range(v)
    if l2 is not None and (lo is None or l2 > lo):
        lo = l2
    if h2 is not None and (hi is None or h2 < hi):
        hi = h2
    _range_cache[v] = (lo, hi)
    return lo, hi


def residue_range(v):
    """range of c*(L mod M) + R, where v holds it as c*L - c*M*fdiv(L,M) + R"""
    for x, c0 in v.terms:
        if x.op != 'fdiv' or not isinstance(x.args[1], int):
            continue
        L, M = x.args
        if not isinstance(L, Lin) or c0 % M or (len(L.terms) == 1 and L.const == 0):
            continue
        c = -c0 // M
        R = sub(v, scale(sub(L, mk({x: 1}, 0) if M == 1 else scale(mk({x: 1}, 0), M)), c))
        if isinstance(R, Lin) and len(R.terms) >= len(v.terms) - 1:
            continue
        rl, rh = rng(R) if isinstance(R, (Lin, Atom)) else (R, R)
        l2, h2 = _scale_rng(0, M - 1, c)
        return (None if rl is None else rl + l2), (None if rh is None else rh + h2)
    return None, None


def group_range(b, ks):
    """range of sum(coef*fdiv(b,k))"""
    if len(ks) == 1:
        (k, c), = ks.items()
        bl, bh = (None, None)
        if isinstance(b, Lin) and len(b.terms) == 1 and k == 1 and b.const == 0 and b.terms[0][1] == 1:
            bl, bh = b.terms[0][0].lo, b.terms[0][0].hi
        else:
            bl, bh = rng(b)
        if k != 1:
            bl = None if bl is None else bl // k
            bh = None if bh is None else bh // k
        return _scale_rng(bl, bh, c)
    order = sorted(ks)
    lo = hi = 0
    beta = 0
    prev = None
    for i, k in enumerate(order):
        if prev is not None and k % prev:
            # not a digit chain: plain interval sum
            lo = hi = 0
            for kk, c in ks.items():
                l2, h2 = group_range(b, {kk: c})
                lo = None if lo is None or l2 is None else lo + l2
                hi = None if hi is None or h2 is None else hi + h2
            return lo, hi
        prev = k
    for i, k in enumerate(order):
        ratio = 1 if i == 0 else k // order[i - 1]
        beta = ks[k] + ratio * beta
        if i + 1 < len(order):
            w = order[i + 1] // k
            if isinstance(b, Lin) and len(b.terms) == 1 and b.const == 0 and b.terms[0][1] == 1:
                bl, bh = b.terms[0][0].lo, b.terms[0][0].hi
            else:
                bl, bh = rng(b)
            dl, dh = 0, w - 1
            if bl is not None and bl >= 0 and bh is not None and bh // k < dh:
                dh = bh // k
            l2, h2 = _scale_rng(dl, dh, beta)
        else:
            l2, h2 = group_range(b, {k: beta}) if beta else (0, 0)
        lo = None if lo is None or l2 is None else lo + l2
        hi = None if hi is None or h2 is None else hi + h2
    return lo, hi


def _scale_rng(lo, hi, c):
    if c == 0:
        return 0, 0
    if c > 0:
        return (None if lo is None else lo * c), (None if hi is None else hi * c)
    return (None if hi is None else hi * c), (None if lo is None else lo * c)


# -- bit operations ---------------------------------------------------------

def band(a, b):
    if not isinstance(a, (Lin, Atom)):
        a, b = b, a
    if not isinstance(a, (Lin, Atom)):
        return int(a) & int(b)
    if isinstance(b, (Lin, Atom)):
        x, y = sorted([as_lin(a), as_lin(b)], key=repr)
        return iatom('and', x, y)
    m = int(b)
    if m < 0:
        return sub(a, band(a, ~m))
    out = 0
    k = 0
    while m >> k:
        if (m >> k) & 1:
            w = 0
            while (m >> (k + w)) & 1:
                w += 1
            out = add(out, scale(mod(floordiv(a, 1 << k), 1 << w), 1 << k))
            k += w
        else:
            k += 1
    return out


def support(v):
    """(k, w): v is a multiple of 2^k and 0 <= v < 2^w, or None"""
    if not isinstance(v, (Lin, Atom)):
        v = int(v)
        if v == 0:
            return (10 ** 6, 0)
        if v < 0:
            return ((v & -v).bit_length() - 1, None)
        return ((v & -v).bit_length() - 1, v.bit_length())
    v = as_lin(v)
    g = reduce(gcd, [c for _, c in v.terms], v.const)
    k = (g & -g).bit_length() - 1
    lo, hi = rng(v)
    if lo is None or lo < 0 or hi is None:
        return (k, None)
    return (k, hi.bit_length())


def bor(a, b):
    if not isinstance(a, (Lin, Atom)) and not isinstance(b, (Lin, Atom)):
        return int(a) | int(b)
    for x, y in ((a, b), (b, a)):
        sx, sy = support(x), support(y)
        if sx[1] is not None and sx[1] <= sy[0]:
            return add(a, b)
    if not isinstance(a, (Lin, Atom)):
        a, b = b, a
    if not isinstance(b, (Lin, Atom)):
        return sub(add(a, b), band(a, b))
    x, y = sorted([as_lin(a), as_lin(b)], key=repr)
    return iatom('or', x, y)


def bxor(a, b):
    if not isinstance(a, (Lin, Atom)) and not isinstance(b, (Lin, Atom)):
        return int(a) ^ int(b)
    if not isinstance(a, (Lin, Atom)):
        a, b = b, a
    if not isinstance(b, (Lin, Atom)):
        d = int(b)
        if d in (0, -1):
            return sub(-1, a) if d else a
        lo, hi = rng(a)
        if d == 1 and lo is not None and lo >= 0 and hi is not None and hi <= 1:
            return sub(1, a)
        x = as_lin(a)
        if x.const == 0 and len(x.terms) == 1 and x.terms[0][1] == 1 and x.terms[0][0].op == 'xor' and \
                isinstance(x.terms[0][0].args[1], int):
            return bxor(x.terms[0][0].args[0], d ^ x.terms[0][0].args[1])
        if lo is None or hi is None:
            return iatom('xor', x, d)
        n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0,
                d.bit_length() if d >= 0 else (-d - 1).bit_length())
        return iatom('xor', x, d, lo=0 if lo >= 0 and d >= 0 else -2 ** n, hi=2 ** n - 1)
    x, y = sorted([as_lin(a), as_lin(b)], key=repr)
    return iatom('xor', x, y)


def shl(a, b):
    if isinstance(b, (Lin, Atom)):
        if not isinstance(a, (Lin, Atom)) and int(a) == 1:
            return iatom('pow2', as_lin(b), lo=1)
        return iatom('shl', as_lin(a), as_lin(b))
    if b < 0:
        return iatom('shl', as_lin(a), b)
    return scale(a, 1 << b) if isinstance(a, (Lin, Atom)) else int(a) << b


def shr(a, b):
    if isinstance(b, (Lin, Atom)):
        return iatom('shr', as_lin(a), as_lin(b))
    if b < 0:
        return iatom('shr', as_lin(a), b)
    return floordiv(a, 1 << b)


CTYPES = {
    'char': (-2 ** 7, 2 ** 7 - 1), 'schar': (-2 ** 7, 2 ** 7 - 1),
    'unsigned char': (0, 2 ** 8 - 1),
    'int8_t': (-2 ** 7, 2 ** 7 - 1), 'uint8_t': (0, 2 ** 8 - 1),
    'short': (-2 ** 15, 2 ** 15 - 1), 'unsigned short': (0, 2 ** 16 - 1),
    'int16_t': (-2 ** 15, 2 ** 15 - 1), 'uint16_t': (0, 2 ** 16 - 1),
    'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned int': (0, 2 ** 32 - 1),
    'int32_t': (-2 ** 31, 2 ** 31 - 1), 'uint32_t': (0, 2 ** 32 - 1),
    'long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long': (0, 2 ** 64 - 1),
    'longlong': (-2 ** 63, 2 ** 63 - 1),
    'int64_t': (-2 ** 63, 2 ** 63 - 1), 'uint64_t': (0, 2 ** 64 - 1),
    'Py_ssize_t': (-2 ** 63, 2 ** 63 - 1), 'size_t': (0, 2 ** 64 - 1),
    'Py_hash_t': (-2 ** 63, 2 ** 63 - 1), 'Py_uhash_t': (0, 2 ** 64 - 1),
    'bint': (0, 1),
}
CWIDTH = {'char': 1, 'schar': 1, 'unsigned char': 1, 'int8_t': 1, 'uint8_t': 1,
          'short': 2, 'unsigned short': 2, 'int16_t': 2, 'uint16_t': 2,
          'int': 4, 'unsigned int': 4, 'int32_t': 4, 'uint32_t': 4, 'float': 4, 'bint': 4,
          'long': 8, 'unsigned long': 8, 'int64_t': 8, 'uint64_t': 8, 'double': 8,
          'Py_ssize_t': 8, 'size_t': 8, 'longlong': 8, 'Py_hash_t': 8, 'Py_uhash_t': 8}
CFMT = {'int8_t': 'b', 'char': 'b', 'schar': 'b', 'uint8_t': 'B', 'unsigned char': 'B',
        'int16_t': 'h', 'short': 'h', 'uint16_t': 'H', 'unsigned short': 'H',
        'int32_t': 'i', 'int': 'i', 'uint32_t': 'I', 'unsigned int': 'I',
        'int64_t': 'q', 'long': 'q', 'Py_ssize_t': 'q', 'longlong': 'q',
        'uint64_t': 'Q', 'unsigned long': 'Q', 'size_t': 'Q',
        'float': 'f', 'double': 'd'}
FMTRANGE = {'b': CTYPES['int8_t'], 'B': CTYPES['uint8_t'], 'h': CTYPES['int16_t'],
            'H': CTYPES['uint16_t'], 'i': CTYPES['int32_t'], 'I': CTYPES['uint32_t'],
            'q': CTYPES['int64_t'], 'Q': CTYPES['uint64_t']}
FMTWIDTH = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8}


def wrap(v, ctype):
    """value of v converted to the C integer type (exact, modulo 2^w)"""
    if ctype == 'bint':
        return v
    r = CTYPES.get(ctype)
    if r is None or not is_int(v):
        return v
    lo, hi = rng(v)
    if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
        return v
    m = r[1] - r[0] + 1
    # v - m*floor((v - lo)/m)
    return sub(v, scale(floordiv(sub(v, r[0]), m), m))


# -- printing -----------------------------------------------------------------

def show(v, depth=0):
    if isinstance(v, Lin):
        parts = []
        for a, c in v.terms:
            s = show(a, depth + 1)
            if c == 1:
                parts.append('+' + s)
            elif c == -1:
                parts.append('-' + s)
            else:
                parts.append('%+d*%s' % (c, s))
        if v.const:
            parts.append('%+d' % v.const)
        s = ''.join(parts)
        if s.startswith('+'):
            s = s[1:]
        return '(%s)' % s if depth and len(parts) > 1 else s
    if isinstance(v, Atom):
        if v.op in ('param', 'sym'):
            return str(v.args[0])
        if v.op == 'fresh':
            return '?' + '#'.join(str(show(x, depth + 1)) for x in v.args)
        if v.op == 'attr':
            return '%s.%s' % (show(v.args[0], 1), v.args[1])
        return '%s(%s)' % (v.op, ', '.join(show(x, depth + 1) for x in v.args))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(x) for x in v)
    return repr(v)


def atoms_of(v, acc=None):
    """top-level atoms of a value (and, for fdiv/mul, of their arguments)"""
    if acc is None:
        acc = set()
    if isinstance(v, Lin):
        for a, _ in v.terms:
            atoms_of(a, acc)
    elif isinstance(v, Atom):
        if v not in acc:
            acc.add(v)
            for x in v.args:
                if isinstance(x, (Lin, Atom, tuple)):
                    atoms_of(x, acc)
    elif isinstance(v, tuple):
        for x in v:
            atoms_of(x, acc)
    return acc
