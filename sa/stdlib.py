"""Models of the builtins, the library functions and the C intrinsics used by the
analysed code.  Whatever has no model here is an opaque call (a fresh value)."""
import ast
import builtins
import struct as _struct

from .frontend import Unsupported
from .terms import (Lin, Atom, atom, iatom, fresh, as_lin, is_int, add, atoms_of, sub, neg, mul, floordiv, mod, scale,
                    wrap, rng, show, CTYPES, CWIDTH, CFMT, FMTRANGE, FMTWIDTH)
from .facts import Cond, ge, lt, ge0, eq0, pred, cnot, cand, cor
from .values import (Ref, HObj, HList, HDict, HGen, Ptr, Func, Bound, Class, Builtin, Ext, Exc, Event, State, token, has_token)
from .interp import Range, Star, Native, Super, is_const, boolval, as_num, UNDEF

TYPES = {'int': int, 'long': int, 'str': str, 'unicode': str, 'bytes': bytes, 'float': float, 'bool': bool,
         'tuple': tuple, 'list': list, 'dict': dict, 'set': set, 'type': type, 'object': object,
         'bytearray': bytearray, 'slice': slice, 'frozenset': frozenset}


def call_builtin(I, name, args, kw, st, fr, node):
    short = name
    if name.startswith(('str.', 'unicode.')) and args and has_token(args[0]) and name.split('.')[1] in LOOKS:
        # what the value inside the text is written like is not known
        return [(st, atom('call ' + name, *[I.canon(a, st) for a in args], typ=LOOKS[name.split('.')[1]]))]
    f = TABLE.get(name)
    if f is None and '.' in name:
        f = TABLE.get('*.' + name.rsplit('.', 1)[1]) if name.split('.')[0] in (
            'str', 'bytes', 'unicode') else None
    if f is not None:
        r = f(I, args, kw, st, fr, node)
        if r is not None:
            return r
    if I.is_exc_class(name):
        return [(st, Exc(name, tuple(args)))]
    # methods of constants, evaluated
    base, _, meth = name.rpartition('.')
    if base in ('str', 'bytes', 'tuple', 'int', 'float') and args and all(is_const(a) for a in args) and not kw:
        try:
            r = getattr(args[0], meth)(*args[1:])
        except Exception as e:
            return [(I.raise_(st, type(e).__name__, (), node), None)]
        if isinstance(r, list):
            s = st.fork()
            return [(s, s.alloc(HList(r)))]
        if is_const(r):
            return [(st, r)]
    if base == 're' and meth in ('sub', 'escape', 'split') and all(is_const(a) for a in args) and not kw:
        import re
        r = getattr(re, meth)(*args)
        if is_const(r):
            return [(st, r)]
    typ = RET.get(name) or RET.get('*.' + meth)
    if typ is None and base in ('str', 'unicode', 'bytes') and meth in (
            'upper', 'lower', 'strip', 'rstrip', 'lstrip', 'replace', 'join', 'format', 'ljust', 'capitalize',
            'rjust', 'title', 'zfill'):
        typ = 'bytes' if base == 'bytes' else 'str'
    pure = name in PURE or base in ('str', 'unicode', 'bytes')
    return I.opaque(st, fr, name, args, kw, node, typ=typ or 'object', pure=pure)


LOOKS = {'lower': 'str', 'upper': 'str', 'title': 'str', 'capitalize': 'str', 'swapcase': 'str', 'isdigit': 'bint',
         'isalpha': 'bint', 'isupper': 'bint', 'islower': 'bint', 'isidentifier': 'bint', 'isalnum': 'bint'}

RET = {'repr': 'str', 'str': 'str', 'marshal.dumps': 'bytes', '*.encode': 'bytes', '*.decode': 'str',
       '*.startswith': 'bint', '*.endswith': 'bint', 'os.path.join': 'str'}
PURE = {'repr', 'str', 'hash', 'marshal.dumps', 'float', 'ord', 'chr', 'abs', 'sum', 'sorted', 'type', 'iter',
        'dict', 'list', 'tuple', 'set', 'map', 'filter', 'zip', 'reversed', 'id', 'round', 'os.path.join',
        'operator.attrgetter'}


def one(v):
    return lambda I, args, kw, st, fr, node: [(st, v)]


# ------------------------------------------------------------------- builtins

def b_len(I, args, kw, st, fr, node):
    v = args[0]
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, HList):
            if any(isinstance(x, Star) for x in o.items):
                if len(o.items) == 1:
                    return [(st, seqlen(o.items[0].v))]
                return [(st, iatom('len', I.canon(v, st), lo=0))]
            return [(st, len(o.items))]
        if isinstance(o, HDict):
            return [(st, len(o.items) if o.open is None else iatom('len', o.open, lo=0))]
        if isinstance(o, HObj):
            if o.cls == 'bytearray':
                return [(st, o.fields['len'])]
            return I.dispatch_call(st, v, '__len__', [], {}, fr, node)
    if isinstance(v, tuple) and any(isinstance(x, Star) for x in v):
        if len(v) == 1:
            return [(st, seqlen(v[0].v))]
        return [(st, iatom('len', I.canon(v, st), lo=0))]
    if isinstance(v, (str, bytes, tuple)):
        return [(st, len(v))]
    if isinstance(v, Range):
        if v.step == 1:
            n = sub(v.stop, v.start)
            t, f = I.branch(st, ge0(n))
            return [(s, n) for s in t] + [(s, 0) for s in f]
    if v is None or isinstance(v, (bool, int, float, Lin, Cond)):
        return [(I.raise_(st, 'TypeError', ('len',), node), None)]
    if isinstance(v, Atom):
        if v.typ in ('bytes', 'str', 'unicode'):
            return [(st, as_lin(I.length(v)))]
        n = as_lin(iatom('len', v, lo=0))
        return [(st, n)]
    raise Unsupported('len of %r' % (v,))


def seqlen(v):
    """length of an abstract sequence (maps keep the length of their source)"""
    if isinstance(v, Atom) and v.op == 'map' and len(v.args[0]) == 1:
        return seqlen(v.args[2])
    return iatom('len', v, lo=0)


def b_ord(I, args, kw, st, fr, node):
    v = args[0]
    if isinstance(v, (str, bytes)) and len(v) == 1:
        return [(st, ord(v))]
    if isinstance(v, Atom) and v.op == 'slice' and isinstance(sub(v.args[2], v.args[1]), int) \
            and sub(v.args[2], v.args[1]) == 1 and v.typ == 'bytes':
        return [(st, iatom('rd', v.args[0], 'B', as_lin(v.args[1]), lo=0, hi=255))]
    return None


def b_chr(I, args, kw, st, fr, node):
    v = as_num(args[0])
    if isinstance(v, int):
        return [(st, chr(v))]
    return [(st, atom('chr', I.canon(v, st), typ='str'))]


def b_int2byte(I, args, kw, st, fr, node):
    v = as_num(args[0])
    if isinstance(v, int):
        if 0 <= v < 256:
            return [(st, bytes([v]))]
        return [(I.raise_(st, 'struct.error', (), node), None)]
    return [(st, atom('int2byte', I.canon(v, st), typ='bytes'))]


def b_range(I, args, kw, st, fr, node):
    a = [as_num(x) for x in args]
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = a + [1]
    if any(not is_int(x) for x in a):
        if any(x is None or isinstance(x, (str, bytes, float)) for x in a):
            return [(I.raise_(st, 'TypeError', (), node), None)]
        a = [as_lin(x) if isinstance(x, Atom) else x for x in a]
        if any(not is_int(x) for x in a):
            raise Unsupported('range')
    return [(st, Range(*a))]


class _ModuleType(type):
    def __instancecheck__(cls, v):
        from .world import Module as M
        return isinstance(v, M)


class Module(metaclass=_ModuleType):
    """world.Module, which cannot be imported here"""


def b_isinstance(I, args, kw, st, fr, node):
    v, k = args
    if isinstance(k, tuple):
        acc = [(st, False)]
        for x in k:
            nxt = []
            for s, c in acc:
                for s2, d in b_isinstance(I, [v, x], {}, s, fr, node):
                    nxt.append((s2, cor(c, d)))
            acc = nxt
        return acc
    return [(st, isinst(I, st, v, k))]


def isinst(I, st, v, k):
    kn = k.name if isinstance(k, (Class, Builtin)) else None
    kn = {'long': 'int', 'unicode': 'str', 'basestring': 'str', 'six.string_types': 'str',
          'six.binary_type': 'bytes', 'six.text_type': 'str', 'six.integer_types': 'int'}.get(kn, kn)
    if isinstance(v, Module) and kn is not None and kn != 'types.ModuleType':
        return kn == 'object'
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, HList):
            return kn == o.kind or kn == 'object'
        if isinstance(o, HDict):
            return kn == 'dict'
        if isinstance(o.cls, Class):
            if '__class__' in o.fields and isinstance(o.fields['__class__'], Atom):
                c = o.fields['__class__']
                if k == c:
                    return True
                if isinstance(k, Class) and o.cls.is_sub(k):
                    return True
                return pred(atom('isinst', I.canon(v, st), I.canon(k, st)))
            if isinstance(k, Class):
                if o.cls.is_sub(k):
                    return True
                if o.exact or o.sym is None:
                    return False
                if k.is_sub(o.cls):
                    return pred(atom('isinst', o.sym, k.name))
                return False
            if isinstance(k, Builtin):
                return any(isinstance(b, Builtin) and b.name == kn for c in o.cls.mro() for b in c.bases) or kn == 'object'
            if o.sym is not None or True:
                return pred(atom('isinst', I.canon(v, st), I.canon(k, st)))
        return kn == o.cls
    if isinstance(v, Atom) and v.kind == 'obj':
        if isinstance(k, Class):
            if v.typ in ('bytes', 'str', 'tuple', 'list', 'float', 'type', 'unicode'):
                return False
            return pred(atom('isinst', v, k.name))
        if isinstance(k, Builtin):
            if v.typ in ('bytes', 'str', 'tuple', 'list', 'float', 'dict'):
                return v.typ == kn
            return pred(atom('isinst', v, kn))
        return pred(atom('isinst', v, I.canon(k, st)))
    if isinstance(k, Class):
        if isinstance(v, (Class, Func, Builtin, Bound)) or v is None or is_const(v) or is_int(v) or isinstance(v, Cond):
            return False
    if isinstance(v, (Class,)):
        return kn == 'type'
    if isinstance(v, Builtin) and kn == 'type':
        return v.name in TYPES
    if is_int(v) or isinstance(v, (bool, Cond)):
        if isinstance(v, (bool, Cond)):
            return kn in ('int', 'bool', 'object')
        return kn in ('int', 'object')
    if is_const(v) and kn in TYPES:
        return isinstance(v, TYPES[kn])
    if isinstance(v, tuple):
        return kn == 'tuple'
    if isinstance(v, Range):
        return kn == 'range'
    if isinstance(v, (Func, Bound, Native)):
        return kn in ('function', 'types.FunctionType')
    return pred(atom('isinst', I.canon(v, st), I.canon(k, st)))


def b_issubclass(I, args, kw, st, fr, node):
    a, b = args
    if isinstance(b, tuple):
        rs = [b_issubclass(I, [a, x], {}, st, fr, node)[0][1] for x in b]
        return [(st, cor(*rs))]
    if isinstance(a, Class) and isinstance(b, Class):
        return [(st, a.is_sub(b))]
    if isinstance(a, Class) and isinstance(b, Builtin):
        return [(st, any(isinstance(x, Builtin) and x.name == b.name for c in a.mro() for x in c.bases))]
    if isinstance(a, Builtin) and isinstance(b, Class):
        return [(st, False)]
    if isinstance(a, Atom) and isinstance(b, Class):
        return [(st, pred(atom('issub', a, b.name)))]
    return [(st, pred(atom('issub', I.canon(a, st), I.canon(b, st))))]


def b_hash(I, args, kw, st, fr, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.obj(v), HObj):
        o = st.obj(v)
        if '__int__' in o.fields:
            return [(st, iatom('hash', I.canon(o.fields['__int__'], st)))]
        if isinstance(o.cls, Class) and o.cls.lookup('__hash__') is not None:
            return I.dispatch_call(st, v, '__hash__', [], {}, fr, node)
    if isinstance(v, tuple):
        outs = [(st, ())]
        for x in v:
            outs = [(s2, hs + (h,)) for s, hs in outs
                    for s2, h in (b_hash(I, [x], {}, s, fr, node) if s.exc is None else [(s, None)])]
        return [(s, hash_tuple(hs) if s.exc is None else None) for s, hs in outs]
    if I.w.kind == 'compiled':
        if v == b'' and isinstance(v, bytes):
            return [(st, 0)]
        if isinstance(v, Atom) and v.typ == 'bytes':
            if v.op == 'slice' and v.args[0] is not None and all(x is not None for x in v.args[1:3]):
                return hash_bytes(I, st, v.args[0], v.args[1], sub(v.args[2], v.args[1]))
            return hash_bytes(I, st, v, 0, I.length(v))
    a = iatom('hash', I.canon(v, st))
    return [(s, a) for s in I.assume(st, cnot(eq0(add(a, 1))))]      # no hash is -1


def b_carray(I, args, kw, st, fr, node):
    """cdef T name[n] (the items are not initialised)"""
    n = as_num(args[0])
    return [(st, st.alloc(HList([None] * n if isinstance(n, int) else None)))]


def hash_tuple(hs):
    return iatom('hashtuple', *[as_lin(h) for h in hs], lo=-2 ** 63, hi=2 ** 63 - 1)


def hash_bytes(I, st, region, off, n):
    """CPython: the empty string hashes to 0, and no hash is -1"""
    a = iatom('hashbytes', region, as_lin(off), as_lin(n), lo=-2 ** 63, hi=2 ** 63 - 1)
    zero, more = I.branch(st, eq0(n))
    out = [(s, 0) for s in zero]
    for s in more:
        out += [(x, a) for x in I.assume(s, cnot(eq0(add(a, 1))))]
    return out


def b_bool(I, args, kw, st, fr, node):
    if not args:
        return [(st, False)]
    c = I.cond(args[0], st)
    if isinstance(c, tuple):
        return [(s, b) for s, b in I.truth(st, args[0], fr)]
    return [(st, c)]


def b_int(I, args, kw, st, fr, node):
    if not args:
        return [(st, 0)]
    v = args[0]
    if isinstance(v, Ref):
        iv = I.intval(v, st)
        if iv is not None:
            return [(st, iv)]
        if isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and st.obj(v).cls.lookup('__int__'):
            return I.dispatch_call(st, v, '__int__', [], {}, fr, node)
    if isinstance(v, Cond):
        return [(st, boolval(v))]
    if len(args) == 1 and is_int(v) or isinstance(v, bool):
        return [(st, v)]
    if all(is_const(a) for a in args) and v is not None:
        try:
            return [(st, int(*args))]
        except Exception as e:
            return [(I.raise_(st, type(e).__name__, (), node), None)]
    if v is None:
        return [(I.raise_(st, 'TypeError', (), node), None)]
    return [(st, iatom('int', *[I.canon(a, st) for a in args]))]


def b_str(I, args, kw, st, fr, node):
    if not args:
        return [(st, '')]
    v = args[0]
    if len(args) > 1 or kw:
        return None
    if isinstance(v, str):
        return [(st, v)]
    if isinstance(v, Atom) and v.typ in ('str', 'unicode'):
        return [(st, v)]
    if is_const(v):
        return [(st, str(v))]
    if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class):
        for nm in ('__str__', '__repr__'):
            if st.obj(v).cls.lookup(nm) is not None:
                return [(I.raise_(s, 'TypeError', (nm + ' returned non-string',), node), None)
                        if not s.exc and isinstance(r, Ref) and isinstance(s.obj(r), HObj) else (s, r)
                        for s, r in I.dispatch_call(st, v, nm, [], {}, fr, node)]
    if isinstance(v, Cond):
        yes, no = I.branch(st, v)
        return [(s, 'True') for s in yes] + [(s, 'False') for s in no]
    if isinstance(v, (Lin, Atom)) and numeric_tok(v):
        return [(st, token(v))]
    return [(st, atom('str', I.canon(v, st), typ='str'))]


def b_repr(I, args, kw, st, fr, node):
    v = args[0]
    if is_const(v):
        return [(st, repr(v))]
    if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and \
            st.obj(v).cls.lookup('__repr__') is not None:
        return I.dispatch_call(st, v, '__repr__', [], {}, fr, node)
    if isinstance(v, (Lin, Atom)) and numeric_tok(v):
        return [(st, token(v))]
    return [(st, atom('repr', I.canon(v, st), typ='str'))]


def numeric_tok(v):
    return isinstance(v, Lin) or v.kind == 'int' or v.typ in (None, 'object')


def b_tuple(I, args, kw, st, fr, node):
    if not args:
        return [(st, ())]
    return seq_of(I, args[0], st, fr, node, 'tuple')


def b_list(I, args, kw, st, fr, node):
    if not args:
        s = st.fork()
        return [(s, s.alloc(HList([])))]
    return seq_of(I, args[0], st, fr, node, 'list')


def b_set(I, args, kw, st, fr, node):
    if not args:
        s = st.fork()
        return [(s, s.alloc(HList([], 'set')))]
    return seq_of(I, args[0], st, fr, node, 'set')


def items_of(I, v, st, fr, node):
    """-> list of (state, items) where items may contain Star"""
    from .loops import concrete_items
    it = concrete_items(I, st, v)
    if it is not None:
        return [(st, it)]
    if isinstance(v, tuple):
        return [(st, list(v))]
    if isinstance(v, Ref) and isinstance(st.obj(v), HList):
        return [(st, list(st.obj(v).items))]
    if isinstance(v, Ref) and isinstance(st.obj(v), HGen):
        g = st.obj(v)
        st = st.fork()
        if g.done:
            return [(st, [])]
        st.wobj(v).done = True
        box = st.alloc(HList([]))
        return [(s, [] if s.exc else list(s.obj(box).items))
                for s, _ in I.call_func(g.fn, g.args, g.kw, st, g.fr, node, collecting=box)]
    if isinstance(v, Range):
        return [(st, [Star(('range', v.start, v.stop, v.step))])]
    if v is None or isinstance(v, (bool, int, Lin, Cond)):
        return [(I.raise_(st, 'TypeError', ('not iterable',), node), [])]
    if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and \
            st.obj(v).cls.lookup('__iter__') is None and isinstance(I.w.resolve(st.obj(v).cls.lookup('__getitem__')), Func):
        r = by_index(I, v, st, fr, node)
        if r is not None:
            return r
    return [(st, [Star(I.canon(v, st))])]


def by_index(I, v, st, fr, node):
    """the old iteration protocol: __getitem__(0), (1)... until IndexError; None if it is not short"""
    f = I.w.resolve(st.obj(v).cls.lookup('__getitem__'))
    out, cur = [], [(st, [])]
    for i in range(12):
        nxt = []
        for s, items in cur:
            rs = I.call(Bound(v, f), [i], {}, s, fr, node)
            more = sum(1 for s2, r in rs if not s2.exc)
            if more and len(rs) > 3:
                return None
            for s2, r in rs:
                if s2.exc and s2.exc.name == 'IndexError':
                    s2 = s2.fork()
                    s2.exc = None
                    out.append((s2, items))
                elif s2.exc:
                    out.append((s2, []))
                else:
                    nxt.append((s2, items + [r]))
        cur = nxt
        if not cur:
            return out
    return None


def seq_of(I, v, st, fr, node, kind):
    out = []
    for s, items in items_of(I, v, st, fr, node):
        if s.exc:
            out.append((s, None))
        elif kind == 'tuple':
            out.append((s, tuple(items)))
        else:
            s = s.fork()
            out.append((s, s.alloc(HList(items, kind))))
    return out


def b_dict(I, args, kw, st, fr, node):
    s = st.fork()
    d = HDict({})
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(s.obj(v), HDict):
            d.items = dict(s.obj(v).items)
            d.open = s.obj(v).open
        else:
            for s2, items in items_of(I, v, s, fr, node):
                if s2.exc:
                    return [(s2, None)]
                for x in items:
                    if isinstance(x, Star):
                        d.open = atom('dictof', x.v)
                    elif isinstance(x, tuple) and len(x) == 2:
                        d.items[I.hashable(x[0], s)] = x[1]
                    else:
                        return None
    d.items.update(kw)
    return [(s, s.alloc(d))]


def m_format(I, args, kw, st, fr, node):
    if not isinstance(args[0], str):
        return None
    from .gen import format_str
    r, e = format_str(I, st, fr, args[0], args[1:], kw)
    if e is not None:
        return [(I.raise_(st, e.name, e.args, node), None)]
    return [(st, r)]


def b_re_compile(I, args, kw, st, fr, node):
    if not all(isinstance(a, (str, bytes, int)) for a in args) or kw:
        return None
    s = st.fork()
    return [(s, s.alloc(HObj('re.pattern', {'args': tuple(args)})))]


def m_re(meth):
    def f(I, args, kw, st, fr, node):
        import re
        p = re.compile(*st.obj(args[0]).fields['args'])
        if kw or not all(isinstance(a, (str, bytes, int)) for a in args[1:]):
            return None
        if any(isinstance(a, str) and '_PH' in a for a in args):
            return None
        r = getattr(p, meth)(*args[1:])
        if isinstance(r, list):
            s = st.fork()
            return [(s, s.alloc(HList(r)))]
        return [(st, r)] if is_const(r) else None
    return f


def b_namedtuple(I, args, kw, st, fr, node):
    from .interp import Native
    name, names = args[0], args[1]
    if isinstance(names, str):
        names = tuple(names.replace(',', ' ').split())
    if isinstance(names, Ref) and isinstance(st.obj(names), HList):
        names = tuple(st.obj(names).items)
    if not isinstance(name, str) or not isinstance(names, tuple) or not all(isinstance(n, str) for n in names) or kw:
        return None

    def init(I, st, fr, a, k):
        vals = dict(zip(names, a[1:]))
        if len(a) - 1 > len(names) or set(vals) & set(k) or set(vals) | set(k) != set(names):
            return [(I.raise_(st, 'TypeError', (), node), None)]
        st = st.fork()
        st.wobj(a[0]).fields.update(vals, **k)
        return [(st, None)]
    from .values import Class
    c = Class(name, fr.module, [], {'__init__': Native(init), '_fields': names}, None, False)
    return [(st, c)]


def b_defaultdict(I, args, kw, st, fr, node):
    s = st.fork()
    return [(s, s.alloc(HDict({}, None, args[0] if args else None)))]


def b_enumerate(I, args, kw, st, fr, node):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    out = []
    for s, items in items_of(I, args[0], st, fr, node):
        if s.exc:
            out.append((s, None))
            continue
        if any(isinstance(x, Star) for x in items):
            src = items[0].v if len(items) == 1 else I.canon(args[0], s)
            out.append((s, atom('enumerate', src, start)))
            continue
        s = s.fork()
        out.append((s, s.alloc(HList([(add(start, i), x) for i, x in enumerate(items)]))))
    return out


def b_zip(I, args, kw, st, fr, node):
    ls = []
    for a in args:
        r = items_of(I, a, st, fr, node)
        if len(r) != 1 or r[0][0].exc:
            return None
        ls.append(r[0][1])
    if any(isinstance(x, Star) for l in ls for x in l):
        return [(st, atom('zip', *[l[0].v if len(l) == 1 and isinstance(l[0], Star) else I.canon(a, st)
                                   for l, a in zip(ls, args)]))]
    s = st.fork()
    return [(s, s.alloc(HList([tuple(t) for t in zip(*ls)])))]


def b_divmod(I, args, kw, st, fr, node):
    a, b = as_num(args[0]), as_num(args[1])
    if isinstance(b, int) and b == 0:
        return [(I.raise_(st, 'ZeroDivisionError', (), node), None)]
    return [(st, (floordiv(a, b), mod(a, b)))]


def minmax(which):
    def f(I, args, kw, st, fr, node):
        if kw:
            return None
        if len(args) == 1:
            r = items_of(I, args[0], st, fr, node)
            if len(r) != 1 or r[0][0].exc or any(isinstance(x, Star) for x in r[0][1]):
                return None
            args = r[0][1]
            if not args:
                return [(I.raise_(st, 'ValueError', (), node), None)]
        cur = [(st, args[0])]
        for x in args[1:]:
            nxt = []
            for s, v in cur:
                v2, x2 = as_num(v), as_num(x)
                if not is_int(v2) or not is_int(x2):
                    if is_const(v) and is_const(x):
                        nxt.append((s, max(v, x) if which == 'max' else min(v, x)))
                        continue
                    return None
                # CPython keeps the first of equal values
                c = lt(v2, x2) if which == 'max' else lt(x2, v2)
                t, f = I.branch(s, c)
                nxt += [(y, x) for y in t] + [(y, v) for y in f]
            cur = nxt
        return cur
    return f


def b_abs(I, args, kw, st, fr, node):
    v = as_num(args[0])
    if not is_int(v):
        return None
    t, f = I.branch(st, ge0(v))
    return [(s, v) for s in t] + [(s, neg(v)) for s in f]


def b_getattr(I, args, kw, st, fr, node):
    name = args[1]
    if not isinstance(name, str):
        return None
    o = args[0]
    if len(args) == 3:
        I.silent += 1
        try:
            r = I.getattr(st, o, name, fr, node)
        finally:
            I.silent -= 1
        if isinstance(o, Atom) or any(isinstance(v, Atom) and v.op == 'attr' and not s.exc for s, v in r):
            if isinstance(o, Atom) and o.op not in ('model',):
                has = pred(atom('hasattr', I.canon(o, st), name))
                t, f = I.branch(st, has)
                return [(s, x) for y in t for s, x in I.getattr(y, o, name, fr, node)] + [(s, args[2]) for s in f]
        out = []
        for s, v in r:
            if s.exc and s.exc.name == 'AttributeError':
                s = s.fork()
                s.exc = None
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out
    return I.getattr(st, o, name, fr, node)


def b_hasattr(I, args, kw, st, fr, node):
    o, name = args
    if isinstance(o, Atom) and o.op not in ('model',):
        return [(st, pred(atom('hasattr', o, name)))]
    I.silent += 1
    try:
        r = I.getattr(st, o, name, fr, node)
    finally:
        I.silent -= 1
    ok = [s for s, v in r if not s.exc]
    if ok and any(isinstance(v, Bound) and isinstance(v.func, Builtin) and v.func.name.startswith(('base.',)) for s, v in r):
        return [(st, pred(atom('hasattr', I.canon(o, st), name)))]
    return [(st, bool(ok))]


def b_setattr(I, args, kw, st, fr, node):
    out = []
    for s in I.setattr(st.fork(), args[0], args[1], args[2], fr, node):
        out.append((s, None))
    return out


def b_sum(I, args, kw, st, fr, node):
    r = items_of(I, args[0], st, fr, node)
    if len(r) == 1 and not r[0][0].exc and not any(isinstance(x, Star) for x in r[0][1]):
        acc = args[1] if len(args) > 1 else 0
        for x in r[0][1]:
            x = as_num(x)
            if not is_int(x):
                return None
            acc = add(acc, x)
        return [(r[0][0], acc)]
    return [(st, iatom('sum', I.canon(args[0], st)))]


def b_any(I, args, kw, st, fr, node):
    return anyall(I, args, st, fr, node, True)


def b_all(I, args, kw, st, fr, node):
    return anyall(I, args, st, fr, node, False)


def anyall(I, args, st, fr, node, isany):
    out = []
    for s, items in items_of(I, args[0], st, fr, node):
        if s.exc:
            out.append((s, None))
            continue
        if any(isinstance(x, Star) for x in items):
            out.append((s, pred(atom('any' if isany else 'all', I.canon(args[0], s)))))
            continue
        cs = [I.cond(x, s) for x in items]
        if any(isinstance(c, tuple) for c in cs):
            return None
        out.append((s, cor(*cs) if isany else cand(*cs)))
    return out


def b_sorted(I, args, kw, st, fr, node):
    r = items_of(I, args[0], st, fr, node)
    if not kw and len(r) == 1 and not r[0][0].exc and all(is_const(x) for x in r[0][1]):
        try:
            s = r[0][0].fork()
            return [(s, s.alloc(HList(sorted(r[0][1]))))]
        except TypeError:
            pass
    s = st.fork()
    key = kw.get('key')
    return [(s, s.alloc(HList([Star(atom('sorted', I.canon(args[0], s), I.canon(key, s) if key is not None else None))])))]


def b_map(I, args, kw, st, fr, node):
    r = items_of(I, args[1], st, fr, node)
    if len(args) == 2 and len(r) == 1 and not any(isinstance(x, Star) for x in r[0][1]):
        cur = [(r[0][0], [])]
        for x in r[0][1]:
            nxt = []
            for s, acc in cur:
                if s.exc:
                    nxt.append((s, acc))
                    continue
                for s2, v in I.call(args[0], [x], {}, s, fr, node):
                    nxt.append((s2, acc + [v]))
            cur = nxt
        out = []
        for s, acc in cur:
            s = s.fork()
            out.append((s, s.alloc(HList(acc)) if not s.exc else None))
        return out
    return None


def b_type(I, args, kw, st, fr, node):
    if len(args) == 3:
        name, bases, d = args
        s = st.fork()
        k = Class(name, fr.module, list(bases), dict(s.obj(d).items) if isinstance(d, Ref) else {}, None, False)
        return [(s, k)]
    v = args[0]
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, HObj):
            return I.obj_getattr(st, v, o, '__class__', fr, node)
        return [(st, Builtin(o.kind if isinstance(o, HList) else 'dict'))]
    if isinstance(v, bool) or isinstance(v, Cond):
        return [(st, Builtin('bool'))]
    if is_int(v):
        return [(st, Builtin('int'))]
    if isinstance(v, Class):
        return [(st, Builtin('type'))]
    if is_const(v) and v is not None:
        return [(st, Builtin(type(v).__name__))]
    if isinstance(v, Atom) and v.typ in ('bytes', 'str', 'tuple', 'list', 'float'):
        return [(st, Builtin(v.typ))]
    return [(st, atom('class', I.canon(v, st), typ='type'))]


def b_iter(I, args, kw, st, fr, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and \
            st.obj(v).cls.lookup('__iter__'):
        return I.dispatch_call(st, v, '__iter__', [], {}, fr, node)
    return [(st, v)]


def b_float(I, args, kw, st, fr, node):
    if args and is_const(args[0]) and args[0] is not None:
        try:
            return [(st, float(args[0]))]
        except Exception as e:
            return [(I.raise_(st, type(e).__name__, (), node), None)]
    return [(st, atom('float', I.canon(args[0], st), typ='float'))]


def new_mem(st):
    return atom('mem', 'ba', st.count('bytearray'), typ='mem')


def b_bytearray(I, args, kw, st, fr, node):
    s = st.fork()
    n = 0
    if args:
        n = as_num(args[0])
        if isinstance(args[0], bytes):
            n = len(args[0])
        elif isinstance(args[0], Atom) and args[0].typ == 'bytes':
            n = I.length(args[0])
        elif not is_int(n):
            return None
        else:
            out = []
            t, f = I.branch(s, ge0(n))
            for x in t:
                x = x.fork()
                r = x.alloc(HObj('bytearray', {'len': n, 'ver': 0}, new_mem(x)))
                I.event(x, fr, 'balloc', (I.canon(n, x),), node)
                out.append((x, r))
            out += [(I.raise_(x, 'ValueError', (), node), None) for x in f]
            return out
    r = s.alloc(HObj('bytearray', {'len': n, 'ver': 0}, new_mem(s)))
    if args and n != 0:
        I.event(s, fr, 'store', (s.obj(r).sym, 0, n, 'bytes', I.canon(args[0], s)), node)
    return [(s, r)]


def b_bytes(I, args, kw, st, fr, node):
    if len(args) == 1 and isinstance(args[0], Ref):
        o = st.obj(args[0])
        if isinstance(o, HObj) and o.cls == 'bytearray':
            v = contents(I, st, o.sym, 0, o.fields['len'])
            if v is not None:
                return [(st, v)]
            return [(st, atom('bytesfrom', o.sym, 0, as_lin(o.fields['len']), typ='bytes'))]
    if len(args) == 1 and isinstance(args[0], bytes):
        return [(st, args[0])]
    return None


def b_slice(I, args, kw, st, fr, node):
    a = list(args)
    if len(a) == 1:
        a = [None, a[0], None]
    while len(a) < 3:
        a.append(None)
    s = st.fork()
    return [(s, s.alloc(HObj('slice', {'start': a[0], 'stop': a[1], 'step': a[2]})))]


# --------------------------------------------------------------- bytearray

def bytearray_extend(I, st, a, b, fr, node):
    """a += b for a bytearray"""
    if isinstance(b, bytes):
        n = len(b)
    elif isinstance(b, Atom) and b.typ == 'bytes':
        n = I.length(b)
    elif isinstance(b, Ref) and isinstance(st.obj(b), HObj) and st.obj(b).cls == 'bytearray':
        n = st.obj(b).fields['len']
    else:
        n = iatom('len', I.canon(b, st), lo=0)
    s = st.fork()
    w = s.wobj(a)
    old = w.fields['len']
    w.fields['len'] = add(old, n)
    c = I.canon(b, s)
    if isinstance(c, Atom) and c.op == 'zeros' and c.args[0] == b'\0' or isinstance(c, bytes) and not c.strip(b'\0'):
        c = 0
    I.event(s, fr, 'bappend', (I.canon(a, st), old, c, n), node)
    if c != 0:
        I.event(s, fr, 'store', (I.canon(a, s), old, n, 'bytes', c), node)
    return [(s, a)]


def bytearray_setslice(I, st, o, lo, hi, v, fr, node):
    n = st.obj(o).fields['len']
    lo = 0 if lo is None else as_num(lo)
    hi = n if hi is None else as_num(hi)
    if isinstance(v, bytes):
        m = len(v)
    elif isinstance(v, Atom) and v.typ == 'bytes':
        m = I.length(v)
    else:
        m = iatom('len', I.canon(v, st), lo=0)
    out = []
    for s, a in I.clamp(st, lo, n):
        for s2, b in I.clamp(s, hi, n):
            t, f = I.branch(s2, ge(b, a))
            for s3, width in [(x, sub(b, a)) for x in t] + [(x, 0) for x in f]:
                s3 = s3.fork()
                w = s3.wobj(o)
                grow = sub(m, width)
                w.fields['len'] = add(n, grow)
                I.event(s3, fr, 'store', (I.canon(o, s3), a, m, 'bytes', I.canon(v, s3)), node)
                if not (isinstance(grow, int) and grow == 0) and not s3.facts.equal_int(grow, 0):
                    I.event(s3, fr, 'bresize', (I.canon(o, s3), grow), node)
                out.append(s3)
    return out


# ------------------------------------------------------------------- methods

def m_append(I, args, kw, st, fr, node):
    s = st.fork()
    w = s.wobj(args[0])
    w.items = list(w.items) + [args[1]]
    I.event(s, fr, 'append', (args[0], I.canon(args[1], s)), node)
    return [(s, None)]


def m_extend(I, args, kw, st, fr, node):
    out = []
    for s, items in items_of(I, args[1], st, fr, node):
        s = s.fork()
        if not s.exc:
            w = s.wobj(args[0])
            w.items = list(w.items) + items
        out.append((s, None))
    return out


def m_list_pop(I, args, kw, st, fr, node):
    o = st.obj(args[0])
    if any(isinstance(x, Star) for x in o.items):
        return None
    if not o.items:
        return [(I.raise_(st, 'IndexError', (), node), None)]
    i = args[1] if len(args) > 1 else -1
    if not isinstance(i, int):
        return None
    s = st.fork()
    w = s.wobj(args[0])
    w.items = list(w.items)
    v = w.items.pop(i)
    return [(s, v)]


def m_list_sort(I, args, kw, st, fr, node):
    s = st.fork()
    w = s.wobj(args[0])
    try:
        if kw or any(not is_const(x) for x in w.items):
            raise TypeError
        w.items = sorted(w.items)
    except TypeError:
        w.items = [Star(atom('sorted', I.canon(args[0], st), I.canon(kw.get('key'), s)))]
    return [(s, None)]


def m_list_index(I, args, kw, st, fr, node):
    o = st.obj(args[0])
    for i, x in enumerate(o.items):
        if not isinstance(x, Star) and I.canon(x, st) == I.canon(args[1], st):
            return [(st, i)]
    return None


def m_list_insert(I, args, kw, st, fr, node):
    s = st.fork()
    w = s.wobj(args[0])
    if isinstance(args[1], int):
        w.items = list(w.items)
        w.items.insert(args[1], args[2])
        return [(s, None)]
    return None


def m_join(I, args, kw, st, fr, node):
    sep = args[0]
    r = items_of(I, args[1], st, fr, node)
    if len(r) != 1 or r[0][0].exc:
        return [(s, None) for s, _ in r] if all(s.exc for s, _ in r) else None
    s, items = r[0]
    t = 'bytes' if isinstance(sep, bytes) else 'str'
    if any(isinstance(x, Star) for x in items):
        c = I.canon(args[1], s)
        return [(s, atom('join', I.canon(sep, s), tuple(I.canon(x, s) for x in items), typ=t))]
    if t == 'str':
        parts = []
        for x in items:
            if isinstance(x, str):
                parts.append(x)
            elif isinstance(x, Atom) and x.typ in ('str', 'unicode', 'object', None):
                parts.append(token(x))
            elif x is None or isinstance(x, (bytes, int, Lin)):
                return [(I.raise_(s, 'TypeError', (), node), None)]
            else:
                return None
        if all(isinstance(x, str) for x in items):
            return [(s, sep.join(items))]
        return [(s, sep.join(parts))]
    out = None
    for i, x in enumerate(items):
        if not (isinstance(x, bytes) or isinstance(x, Atom) and x.typ in ('bytes', 'object', None)):
            if x is None or isinstance(x, (str, int, Lin)):
                return [(I.raise_(s, 'TypeError', (), node), None)]
            return None
        if out is None:
            out = x
        else:
            if sep:
                out = I.cat(out, sep, 'bytes')
            out = I.cat(out, x, 'bytes')
    return [(s, b'' if out is None else out)]


def m_dict_get(I, args, kw, st, fr, node):
    o = st.obj(args[0])
    k = I.hashable(args[1], st)
    d = args[2] if len(args) > 2 else None
    if k in o.items:
        return [(st, o.items[k])]
    if o.open is None and (not o.items or is_const(k) and all(is_const(z) for z in o.items)):
        return [(st, d)]
    miss = pred(atom('in', I.canon(args[1], st), I.canon(args[0], st)))
    t, f = I.branch(st, miss)
    return [(s, atom('item', I.canon(args[0], s), I.canon(args[1], s), typ='object')) for s in t] + [(s, d) for s in f]


def m_dict_items(which):
    def f(I, args, kw, st, fr, node):
        o = st.obj(args[0])
        if o.open is not None:
            return [(st, atom('dict' + which, o.open))]
        s = st.fork()
        items = {'keys': lambda: list(o.items), 'values': lambda: list(o.items.values()),
                 'items': lambda: [tuple(x) for x in o.items.items()]}[which]()
        return [(s, s.alloc(HList(items)))]
    return f


def m_dict_update(I, args, kw, st, fr, node):
    s = st.fork()
    w = s.wobj(args[0])
    w.items = dict(w.items)
    if len(args) > 1:
        o = s.obj(args[1]) if isinstance(args[1], Ref) else None
        if isinstance(o, HDict):
            w.items.update(o.items)
            w.open = w.open or o.open
        else:
            w.open = I.canon(args[1], s)
    w.items.update(kw)
    I.event(s, fr, 'mutate', (args[0], 'update'), node)
    return [(s, None)]


def m_dict_pop(I, args, kw, st, fr, node):
    o = st.obj(args[0])
    k = I.hashable(args[1], st)
    if o.open is not None:
        return None
    s = st.fork()
    if k in o.items:
        w = s.wobj(args[0])
        w.items = dict(w.items)
        v = w.items.pop(k)
        return [(s, v)]
    if len(args) > 2:
        return [(s, args[2])]
    return [(I.raise_(s, 'KeyError', (), node), None)]


def m_dict_copy(I, args, kw, st, fr, node):
    s = st.fork()
    return [(s, s.alloc(s.obj(args[0]).copy()))]


def m_dict_setdefault(I, args, kw, st, fr, node):
    o = st.obj(args[0])
    k = I.hashable(args[1], st)
    if k in o.items:
        return [(st, o.items[k])]
    s = st.fork()
    w = s.wobj(args[0])
    w.items = dict(w.items)
    w.items[k] = args[2] if len(args) > 2 else None
    return [(s, w.items[k])]


def m_find(I, args, kw, st, fr, node):
    """bytes.find: -1 or a position inside [start, len - len(needle)]"""
    v, needle = args[0], args[1]
    if all(is_const(a) for a in args):
        return [(st, v.find(*args[1:]))]
    n = I.length(v)
    if isinstance(needle, (bytes, str)) and len(needle) == 1 and len(args) < 4:
        lo = as_num(args[2]) if len(args) > 2 else 0
        out = []
        for s, a in I.clamp(st, lo, n):
            out += find1(I, s, v, needle, a)
        return out
    m = len(needle) if isinstance(needle, (bytes, str)) else iatom('len', I.canon(needle, st), lo=0)
    lo = as_num(args[2]) if len(args) > 2 else 0
    r = iatom('find', *[I.canon(a, st) for a in args], lo=-1)
    st2 = st
    t, f = I.branch(st2, ge0(r))
    out = []
    for s in t:
        c = ge(sub(n, m), r)
        ss = I.assume(s, c)
        for x in ss:
            if is_int(lo) and x.facts.entails(ge0(lo)):
                ss2 = I.assume(x, ge(r, lo))
            else:
                ss2 = [x]
            out += [(y, r) for y in ss2]
    for s in f:
        out += [(x, -1) for x in I.assume(s, eq0(add(r, 1)))]
    return out


def nozero(st, x):
    """x without the terms known to be zero"""
    if isinstance(x, Lin):
        for a, c in x.terms:
            if st.facts.equal_int(as_lin(a), 0):
                x = sub(x, mul(as_lin(a), c))
    return x


def known_find(st, src, needle, start, end):
    """position of the needle; the same unknown for arguments known to be equal"""
    for g in list(st.facts.ge) + list(st.facts.ne):
        for a in atoms_of(g):
            if a.op == 'find' and len(a.args) == 4 and a.args[0] == src and a.args[1] == needle and \
                    st.facts.equal_int(a.args[2], start) and st.facts.equal_int(a.args[3], end):
                return as_lin(a)
    return iatom('find', src, needle, as_lin(start), as_lin(end), lo=-1)


def find1(I, st, v, needle, lo):
    """first position >= lo of a one-byte needle, part by part (0 <= lo <= len(v) known)"""
    out = []
    todo = [(st, 0)]
    for x in (v.args if isinstance(v, Atom) and v.op == 'cat' else (v,)):
        src, a, b = (x.args if isinstance(x, Atom) and I._exact_slice(x) else (x, 0, I.length(x)))
        nxt = []
        for s, pos in todo:
            end = add(pos, sub(b, a))
            skip, look = I.branch(s, ge(lo, end))
            nxt += [(y, end) for y in skip]
            for s1 in look:
                p, q = I.branch(s1, ge(lo, pos))
                starts = [(y, a) for y in q]
                for y in p:
                    x0, x1 = I.branch(y, eq0(sub(lo, pos)))
                    starts += [(z, a) for z in x0] + [(z, add(a, sub(lo, pos))) for z in x1]
                for s2, start in starts:
                    if isinstance(src, (bytes, str)):
                        if not (is_const(start) and is_const(b)):
                            raise Unsupported('find')
                        r = src.find(needle, start, b)
                        if r >= 0:
                            out.append((s2, add(sub(r, a), pos)))
                        else:
                            nxt.append((s2, end))
                        continue
                    start = nozero(s2, start)
                    r = known_find(s2, I.canon(src, s2), needle, start, b)
                    hit, miss = I.branch(s2, ge0(r))
                    for y in hit:
                        for z in I.assume(y, ge(r, start)):
                            out += [(k, add(sub(r, a), pos)) for k in I.assume(z, ge(sub(b, 1), r))]
                    for y in miss:
                        nxt += [(z, end) for z in I.assume(y, eq0(add(r, 1)))]
        todo = nxt
    return out + [(s, -1) for s, _ in todo]


def m_index(I, args, kw, st, fr, node):
    out = []
    for s, r in m_find(I, args, kw, st, fr, node):
        hit, miss = I.branch(s, ge0(r)) if not isinstance(r, int) else (([s], []) if r >= 0 else ([], [s]))
        out += [(y, r) for y in hit] + [(I.raise_(y, 'ValueError', (), node), None) for y in miss]
    return out


def m_encode(I, args, kw, st, fr, node):
    v = args[0]
    enc = args[1] if len(args) > 1 else kw.get('encoding', 'utf-8')
    if isinstance(v, str) and isinstance(enc, str):
        try:
            return [(st, v.encode(enc))]
        except Exception as e:
            return [(I.raise_(st, type(e).__name__, (), node), None)]
    return [(st, atom('encode', I.canon(v, st), norm_enc(enc), typ='bytes'))]


def m_decode(I, args, kw, st, fr, node):
    v = args[0]
    enc = args[1] if len(args) > 1 else kw.get('encoding', 'utf-8')
    if isinstance(v, bytes) and isinstance(enc, str):
        try:
            return [(st, v.decode(enc))]
        except Exception as e:
            return [(I.raise_(st, type(e).__name__, (), node), None)]
    c = I.settle(st, I.canon(v, st))
    if isinstance(c, Atom) and c.op == 'encode' and c.args[1] == norm_enc(enc):
        return [(st, c.args[0])]
    return [(st, atom('decode', c, norm_enc(enc), typ='str'))]


def m_replace(I, args, kw, st, fr, node):
    """s.replace(a, b) with a single character a is a homomorphism of strings: a chain of them is represented by the
    map from characters to their images, so that equal chains have equal terms whatever their order."""
    v = args[0]
    if len(args) == 3 and not kw and isinstance(args[1], str) and isinstance(args[2], str):
        if isinstance(v, str):
            return [(st, v.replace(args[1], args[2]))]
        a, b = args[1], args[2]
        c = I.settle(st, I.canon(v, st))
        if len(a) == 1 and isinstance(c, Atom) and c.typ in ('str', 'unicode'):
            base, m = c, {}
            if c.op == 'charmap':
                base, m = c.args[0], dict(c.args[1])
            new = {k: x.replace(a, b) for k, x in m.items()}
            if a not in m:
                new[a] = b
            new = tuple(sorted((k, x) for k, x in new.items() if k != x))
            if not new:
                return [(st, base)]
            return [(st, atom('charmap', base, new, typ='str'))]
    if all(is_const(a) for a in args) and not kw:
        try:
            return [(st, v.replace(*args[1:]))]
        except Exception as e:
            return [(I.raise_(st, type(e).__name__, (), node), None)]
    base = 'bytes' if isinstance(v, bytes) or isinstance(v, Atom) and v.typ == 'bytes' else 'str'
    return I.opaque(st, fr, base + '.replace', args, kw, node, typ=base, pure=True)


def m_translate(I, args, kw, st, fr, node):
    """s.translate({ord(c): text}) is such a map too"""
    v, d = (args + [None, None])[:2]
    if isinstance(d, Ref) and isinstance(st.obj(d), HDict) and not st.obj(d).open and not kw and len(args) == 2:
        try:
            m = {chr(k): (x if isinstance(x, str) else chr(x) if isinstance(x, int) else '' if x is None else 1 // 0)
                 for k, x in st.obj(d).items.items()}
        except Exception:
            m = None
        if m is not None:
            if isinstance(v, str) and not has_token(v):
                return [(st, v.translate({ord(k): x for k, x in m.items()}))]
            c = I.settle(st, I.canon(v, st))
            if isinstance(c, Atom) and c.typ in ('str', 'unicode') and c.op != 'charmap':
                new = tuple(sorted((k, x) for k, x in m.items() if k != x))
                return [(st, atom('charmap', c, new, typ='str') if new else c)]
    return None


def norm_enc(e):
    if isinstance(e, str):
        e = e.lower().replace('_', '-')
        return {'utf8': 'utf-8'}.get(e, e)
    return e


def m_indices(I, args, kw, st, fr, node):
    """slice.indices(n)"""
    o = args[0]
    c = I.canon(o, st)
    if isinstance(o, Ref) and isinstance(st.obj(o), HObj) and st.obj(o).cls == 'slice':
        f = st.obj(o).fields
        if f['step'] in (None, 1):
            n = as_num(args[1])
            out = []
            lo = 0 if f['start'] is None else as_num(f['start'])
            hi = n if f['stop'] is None else as_num(f['stop'])
            for s, a in I.clamp(st, lo, n):
                for s2, b in I.clamp(s, hi, n):
                    out.append((s2, (a, b, 1)))
            return out
    a = [iatom('indices', i, c, I.canon(args[1], st)) for i in range(3)]
    return [(st, tuple(a))]


def o_new(I, args, kw, st, fr, node):
    """object.__new__(cls): args = [receiver, cls...]"""
    k = args[-1] if len(args) > 1 and isinstance(args[1], (Class, Atom)) else args[0]
    rest = args[2:] if len(args) > 1 and isinstance(args[1], (Class, Atom)) else args[1:]
    if len(args) > 1 and isinstance(args[1], (Class, Atom)):
        k = args[1]
    k = I.w.resolve(k)
    return I.new_object(k, list(rest), kw, st, fr, node)


# ---------------------------------------------------------------- struct module

def fmt_parse(fmt):
    """'<i' -> (order, [codes]) with repetition"""
    order = '@'
    if fmt and fmt[0] in '<>=!@':
        order, fmt = fmt[0], fmt[1:]
    codes = []
    num = ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
        elif ch.isspace():
            continue
        else:
            codes += [ch] * (int(num) if num else 1)
            num = ''
    return order, codes


def as_fmt(v):
    if isinstance(v, bytes):
        return v.decode('latin-1')
    return v


def s_calcsize(I, args, kw, st, fr, node):
    f = as_fmt(args[0])
    if isinstance(f, str):
        try:
            return [(st, _struct.calcsize(f))]
        except _struct.error:
            return [(I.raise_(st, 'struct.error', (), node), None)]
    return [(st, iatom('calcsize', I.canon(f, st), lo=0))]


def field_offsets(f):
    order, codes = fmt_parse(f)
    offs = []
    for i in range(len(codes)):
        pre = ('' if order == '@' else order) + ''.join(codes[:i + 1])
        offs.append(_struct.calcsize(pre) - _struct.calcsize(('' if order == '@' else order) + codes[i]))
    return order, codes, offs


def norm_order(order):
    return {'@': '', '<': '', '=': ''}.get(order, order)     # little endian hosts


def pack_checks(I, codes, vals, st, node):
    """-> list of (state, values) after range checks"""
    cur = [(st, [])]
    for ch, v in zip(codes, vals):
        nxt = []
        for s, acc in cur:
            if s.exc:
                nxt.append((s, acc))
                continue
            if ch in FMTRANGE:
                x = as_num(v)
                if isinstance(x, Ref):
                    x = I.intval(x, s)
                if isinstance(x, Atom) and x.typ == 'float' or isinstance(x, float) or x is None or \
                        isinstance(x, (str, bytes)):
                    nxt.append((I.raise_(s, 'struct.error', (), node), acc))
                    continue
                if isinstance(x, Atom):
                    x = as_lin(x)
                if not is_int(x) and not isinstance(x, bool):
                    nxt.append((s, acc + [v]))
                    continue
                lo, hi = FMTRANGE[ch]
                t, f = I.branch(s, cand(ge(x, lo), ge(hi, x)))
                nxt += [(y, acc + [x]) for y in t]
                nxt += [(I.raise_(y, 'struct.error', (), node), acc) for y in f]
            else:
                nxt.append((s, acc + [v]))
        cur = nxt
    return cur


def marshallable(v):
    if isinstance(v, tuple):
        return all(marshallable(x) for x in v)
    return v is None or is_const(v) or is_int(v) or isinstance(v, (Atom, Cond))


def s_marshal_dumps(I, args, kw, st, fr, node):
    if len(args) > 2 or not marshallable(args[0]):
        return None
    r = atom('marshalled', I.canon(args[0], st), typ='bytes')
    I.__dict__.setdefault('_marshalled', {})[r] = args[0]
    return [(st, r)]


def s_marshal_loads(I, args, kw, st, fr, node):
    t = getattr(I, '_marshalled', {})
    if isinstance(args[0], Atom) and args[0] in t:
        return [(st, t[args[0]])]
    return None


def s_pack(I, args, kw, st, fr, node):
    f = as_fmt(args[0])
    if not isinstance(f, str):
        return [(st, atom('packv', I.canon(f, st), *[I.canon(a, st) for a in args[1:]], typ='bytes')),
                (I.raise_(st, 'struct.error', (), node), None)]
    if any(isinstance(a, Star) for a in args[1:]):
        return [(st, atom('packv', f, *[I.canon(a, st) for a in args[1:]], typ='bytes'))]
    if all(is_const(a) for a in args[1:]):
        try:
            return [(st, _struct.pack(f, *args[1:]))]
        except _struct.error:
            return [(I.raise_(st, 'struct.error', (), node), None)]
    order, codes = fmt_parse(f)
    out = []
    if len(codes) != len(args) - 1:
        return [(I.raise_(st, 'struct.error', (), node), None)]
    for s, vs in pack_checks(I, codes, args[1:], st, node):
        if s.exc:
            out.append((s, None))
        else:
            out.append((s, packed(I, s, norm_order(order), codes, vs)))
    return out


def packed(I, st, order, codes, vs):
    """bytes of a struct.pack, field by field; integers by their (unsigned) bit pattern"""
    if order or any(c in 'xsp?n' for c in codes):
        return atom('pack', order + ''.join(codes), *[I.canon(v, st) for v in vs], typ='bytes')
    r = b''
    for c, v in zip(codes, vs):
        r = I.cat(r, packed1(I, st, c, v), 'bytes')
    return r


def packed1(I, st, c, v):
    if is_const(v):
        try:
            return _struct.pack('<' + c, v)
        except _struct.error:
            pass
    if c in 'bBhHiIqQ':
        v = as_num(v)
        n = 8 * _struct.calcsize('<' + c)
        if is_int(v) and not isinstance(v, bool):
            c = c.upper()
            if not (st.facts.entails(ge0(v)) and st.facts.entails(lt(v, 2 ** n))):
                v = sub(v, scale(floordiv(v, 2 ** n), 2 ** n))
            if isinstance(v, int):
                return _struct.pack('<' + c, v)
    return atom('pack', c, I.canon(v, st), typ='bytes')


def filled(I, st, r):
    """contents of bytes that were written through a pointer, or the region itself"""
    size = r.args[-1]
    parts = []                      # [(offset, width, value)], the latest store wins
    for e in st.events:
        if e.kind != 'store' or e.data[0] != r:
            continue
        off, w, fmt, x = e.data[1:5]
        if fmt == 'copy':
            if not isinstance(x, tuple) or not isinstance(x[0], (bytes, Atom)) or \
                    isinstance(x[0], Atom) and x[0].typ != 'bytes':
                return r
            if st.facts.equal_int(w, 0):
                continue
            val = I.mkslice(st, x[0], x[1], add(x[1], w))
        else:
            val = packed1(I, st, fmt, x)
        keep = []
        for o, n, y in parts:
            if st.facts.equal_int(o, off) and st.facts.equal_int(n, w):
                continue
            if not (st.facts.entails(ge(o, add(off, w))) or st.facts.entails(ge(off, add(o, n)))):
                return r
            keep.append((o, n, y))
        parts = keep + [(off, w, val)]
    out = b''
    pos = 0
    while parts:
        for i, (o, n, y) in enumerate(parts):
            if st.facts.equal_int(o, pos):
                break
        else:
            return r
        out = I.cat(out, y, 'bytes')
        pos = add(pos, n)
        del parts[i]
    return out if st.facts.equal_int(pos, size) else r


def contents(I, st, region, start, size):
    """what a buffer allocated by the analysed code holds in [start, start+size): its
    stores replayed over zeros; None if their places are not determined"""
    if not (isinstance(region, Atom) and region.op == 'mem' and region.args[0] == 'ba'):
        return None
    fx = st.facts
    parts = [(size, None)]          # [(length, value)]: in order, None for zeros
    for e in st.events:
        if e.kind == 'loop' and any(x.kind in ('store', 'loop') for p in e.data[2] for x in p[1]):
            return None
        if e.kind == 'bappend' and e.data[0] is region and not (isinstance(e.data[2], int) and e.data[2] == 0):
            return None
        if e.kind == 'bresize' and e.data[0] is region:
            return None
        if e.kind != 'store' or e.data[0] is not region:
            continue
        off, w, fmt, x = e.data[1:5]
        off = sub(off, start)
        if fx.equal_int(w, 0):
            continue
        if fmt == 'set' or isinstance(x, int) and x == 0 and not isinstance(x, bool):
            if x != 0:
                return None
            val = None
        elif fmt in ('copy', 'bytes'):
            if fmt == 'copy':
                if not isinstance(x, tuple) or not isinstance(x[0], (bytes, Atom)) or \
                        isinstance(x[0], Atom) and x[0].typ != 'bytes':
                    return None
                val = I.mkslice(st, x[0], x[1], add(x[1], w))
            else:
                val = x
        else:
            val = packed1(I, st, fmt, x)
        pos = 0
        clean = True
        for i, (n, y) in enumerate(parts):
            end = add(pos, n)
            if fx.entails(ge(off, pos)) and fx.entails(ge(end, add(off, w))):
                if y is None and val is None:
                    pass
                elif y is None:
                    before, after = sub(off, pos), sub(end, add(off, w))
                    parts[i:i + 1] = [p for p in ((before, None), (w, val), (after, None))
                                      if not fx.equal_int(p[0], 0)]
                elif fx.equal_int(off, pos) and fx.equal_int(n, w):
                    parts[i] = (w, val)
                else:
                    return None
                break
            if y is not None and not fx.entails(ge(off, end)) and not fx.entails(ge(pos, add(off, w))):
                clean = False
            pos = end
        else:
            if not (clean and val is None) and not fx.entails(ge(off, pos)):
                return None
    out = b''
    for n, y in parts:
        if y is None:
            y = bytes(n) if isinstance(n, int) and n <= 65536 else atom('zeros', b'\0', as_lin(n), typ='bytes')
        out = I.cat(out, y, 'bytes')
    return out


def s_unpack_from(I, args, kw, st, fr, node):
    f = as_fmt(args[0])
    buf = args[1]
    off = as_num(args[2]) if len(args) > 2 else as_num(kw.get('offset', 0))
    return unpack_at(I, f, buf, off, st, fr, node)


def unpack_at(I, f, buf, off, st, fr, node):
    if isinstance(buf, Ref) and isinstance(st.obj(buf), HObj) and st.obj(buf).cls == 'bytearray':
        n = st.obj(buf).fields['len']
        region = I.canon(buf, st)
    elif isinstance(buf, Atom) and buf.typ in ('bytes', 'object', None, 'bytearray'):
        n = I.length(buf) if buf.typ == 'bytes' else iatom('len', buf, lo=0)
        region = buf
    elif isinstance(buf, bytes):
        n = len(buf)
        region = buf
    else:
        raise Unsupported('unpack_from %r' % (buf,))
    base = 0
    if isinstance(region, Atom) and region.op == 'slice':
        base = region.args[1]
        region = region.args[0]
    out = []
    if not isinstance(f, str):
        w = iatom('calcsize', I.canon(f, st), lo=0)
        ok = cand(ge0(off), ge(n, add(off, w)))
        t, fl = I.branch(st, ok)
        for s in t:
            I.event(s, fr, 'load', (region, add(off, base), w), node)
            out.append((s, (atom('rdv', region, I.canon(f, s), as_lin(add(off, base)), typ='object'),)))
        # negative offsets count from the end
        for s in fl:
            t2, f2 = I.branch(s, cand(lt(off, 0), ge0(add(off, n)), ge(n, add(add(off, n), w))))
            for x in t2:
                o2 = add(add(off, n), base)
                I.event(x, fr, 'load', (region, o2, w), node)
                out.append((x, (atom('rdv', region, I.canon(f, x), as_lin(o2), typ='object'),)))
            out += [(I.raise_(x, 'struct.error', (), node), None) for x in f2]
        return out
    try:
        w = _struct.calcsize(f)
    except _struct.error:
        return [(I.raise_(st, 'struct.error', (), node), None)]
    order, codes, offs = field_offsets(f)
    pref = norm_order(order)

    def values(s, o):
        o = add(o, base)
        I.event(s, fr, 'load', (region, o, w), node)
        return tuple(I.rd(s, region, pref + c, add(o, x)) for c, x in zip(codes, offs))
    t, fl = I.branch(st, cand(ge0(off), ge(n, add(off, w))))
    for s in t:
        s = s.fork()
        out.append((s, values(s, off)))
    for s in fl:
        t2, f2 = I.branch(s, cand(lt(off, 0), ge0(add(off, n)), ge(n, add(add(off, n), w))))
        for x in t2:
            x = x.fork()
            out.append((x, values(x, add(off, n))))
        out += [(I.raise_(x, 'struct.error', (), node), None) for x in f2]
    return out


def s_unpack(I, args, kw, st, fr, node):
    f, buf = as_fmt(args[0]), args[1]
    if isinstance(f, str) and isinstance(buf, bytes):
        try:
            return [(st, _struct.unpack(f, buf))]
        except _struct.error:
            return [(I.raise_(st, 'struct.error', (), node), None)]
    if isinstance(f, str) and isinstance(buf, Atom):
        w = _struct.calcsize(f)
        n = I.length(buf) if buf.typ == 'bytes' else iatom('len', buf, lo=0)
        t, fl = I.branch(st, eq0(sub(n, w)))
        out = []
        for s in t:
            out += unpack_at(I, f, buf, 0, s, fr, node)
        out += [(I.raise_(s, 'struct.error', (), node), None) for s in fl]
        return out
    return [(st, atom('unpackv', I.canon(f, st), I.canon(buf, st), typ='tuple')),
            (I.raise_(st, 'struct.error', (), node), None)]


def s_pack_into(I, args, kw, st, fr, node):
    f, buf, off = as_fmt(args[0]), args[1], as_num(args[2])
    vals = args[3:]
    if isinstance(buf, Ref) and isinstance(st.obj(buf), HObj) and st.obj(buf).cls == 'bytearray':
        n = st.obj(buf).fields['len']
    else:
        n = iatom('len', I.canon(buf, st), lo=0)
    region = I.canon(buf, st)
    out = []
    if not isinstance(f, str):
        w = iatom('calcsize', I.canon(f, st), lo=0)
        codes = None
        cur = [(st, list(vals)), (I.raise_(st, 'struct.error', (), node), [])]
    else:
        try:
            w = _struct.calcsize(f)
        except _struct.error:
            return [(I.raise_(st, 'struct.error', (), node), None)]
        order, codes, offs = field_offsets(f)
        if len(codes) != len(vals):
            return [(I.raise_(st, 'struct.error', (), node), None)]
        cur = None

    def do(s, o):
        res = cur if cur is not None else pack_checks(I, codes, vals, s, node)
        for s2, vs in ([(s, v) for _, v in cur] if cur is not None else res):
            if s2.exc:
                out.append((s2, None))
                continue
            s2 = s2.fork()
            if codes is None:
                I.event(s2, fr, 'store', (region, o, w, I.canon(f, s2), I.canon(vs[0], s2)), node)
            else:
                for c, x, v in zip(codes, offs, vs):
                    I.event(s2, fr, 'store', (region, add(o, x), _struct.calcsize('=' + c),
                                              norm_order(order) + c, v if is_int(v) else I.canon(v, s2)), node)
            out.append((s2, None))
    t, fl = I.branch(st, cand(ge0(off), ge(n, add(off, w))))
    for s in t:
        do(s, off)
    for s in fl:
        t2, f2 = I.branch(s, cand(lt(off, 0), ge0(add(off, n)), ge(n, add(add(off, n), w))))
        for x in t2:
            do(x, add(off, n))
        out += [(I.raise_(x, 'struct.error', (), node), None) for x in f2]
    return out


def c_as_signed(I, args, kw, st, fr, node):
    v, bits = as_num(args[0]), args[1]
    if not isinstance(bits, int) or not is_int(v):
        return None
    # if x >= 1<<(bits-1): x -= 1<<bits
    hi, lo = I.branch(st, ge(v, 1 << (bits - 1)))
    return [(s, sub(v, 1 << bits)) for s in hi] + [(s, v) for s in lo]


# ------------------------------------------------------------- C intrinsics

def c_get_size(I, args, kw, st, fr, node):
    v = args[0]
    if v is None:
        I.event(st, fr, 'nullderef', ('GET_SIZE',), node)
        return [(st, iatom('len', 'None', lo=0))]
    return b_len(I, args, kw, st, fr, node)


def c_as_string(I, args, kw, st, fr, node):
    v = args[0]
    if v is None:
        I.event(st, fr, 'nullderef', ('AS_STRING',), node)
    if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and st.obj(v).cls == 'bytearray':
        o = st.obj(v)
        return [(st, Ptr(atom('memv', o.sym, o.fields.get('ver', 0), typ='mem'), 0, 'char*'))]
    return [(st, Ptr(I.canon(v, st), 0, 'char*'))]


def c_from_string(I, args, kw, st, fr, node):
    p, n = args
    n = as_num(n)
    s = st.fork()
    if isinstance(p, Ptr):
        I.event(s, fr, 'load', (p.region, p.off, n), node)
        v = contents(I, s, base_mem(p.region), p.off, n)
        if v is not None:
            return [(s, v)]
        return [(s, atom('bytesfrom', base_mem(p.region), as_lin(p.off), as_lin(n), typ='bytes'))]
    t, f = I.branch(s, ge0(n))
    out = []
    for x in t:
        x = x.fork()
        r = atom('newbytes', x.count('newbytes'), as_lin(n), typ='bytes')
        I.event(x, fr, 'newbytes', (r, n), node)
        out.append((x, r))
    out += [(I.raise_(x, 'SystemError', (), node), None) for x in f]
    return out


def base_mem(r):
    return r.args[0] if isinstance(r, Atom) and r.op == 'memv' else r


def c_memcpy(I, args, kw, st, fr, node):
    d, s_, n = args
    s = st.fork()
    if isinstance(s_, Ptr):
        I.event(s, fr, 'load', (s_.region, s_.off, as_num(n)), node)
    if isinstance(d, Ptr):
        I.event(s, fr, 'store', (d.region, d.off, as_num(n), 'copy',
                                 (base_mem(s_.region), s_.off) if isinstance(s_, Ptr) else I.canon(s_, s)), node)
    return [(s, d)]


def c_memset(I, args, kw, st, fr, node):
    d, v, n = args
    s = st.fork()
    I.event(s, fr, 'store', (d.region, d.off, as_num(n), 'set', as_num(v)), node)
    return [(s, d)]


def c_ba_resize(I, args, kw, st, fr, node):
    o, n = args
    s = st.fork()
    n = as_num(n)
    old = None
    if isinstance(o, Ref):
        f = s.wobj(o).fields
        old = f.get('len')
        f['len'] = n
        f['ver'] = f.get('ver', 0) + 1
    I.event(s, fr, 'bresize_to', (I.canon(o, s), n, old), node)
    return [(s, 0)]


def c_check(kind):
    def f(I, args, kw, st, fr, node):
        c = isinst(I, st, args[0], Builtin(kind))
        return [(st, c)]
    return f


def c_hashbytes(I, args, kw, st, fr, node):
    p, n = args
    s = st.fork()
    if isinstance(p, Ptr):
        I.event(s, fr, 'load', (p.region, p.off, as_num(n)), node)
        return hash_bytes(I, s, p.region, p.off, as_num(n))
    return None


def x_startswith(meth):
    def f(I, args, kw, st, fr, node):
        if all(is_const(a) for a in args):
            return [(st, getattr(args[0], meth)(*args[1:]))]
        return [(st, pred(atom(meth, *[I.canon(a, st) for a in args])))]
    return f


def g_getitem(I, args, kw, st, fr, node):
    return None


def noop(I, args, kw, st, fr, node):
    return [(st, None)]


def b_super_init(I, args, kw, st, fr, node):
    return [(st, None)]


def b_next(I, args, kw, st, fr, node):
    return None


def m_generic_setattr(I, args, kw, st, fr, node):
    k, name, v = args[-3:]
    if isinstance(k, Class):
        k.dict[name] = v
        if isinstance(v, Func):
            if v.cls is None:
                v.cls = k
        return [(st, 0)]
    return None


TABLE = {
    'len': b_len, 'ord': b_ord, 'chr': b_chr, 'six.int2byte': b_int2byte, 'range': b_range, 'xrange': b_range,
    'isinstance': b_isinstance, 'issubclass': b_issubclass, 'hash': b_hash, '__carray__': b_carray, 'bool': b_bool, 'int': b_int,
    'long': b_int, 'str': b_str, 'unicode': b_str, 'repr': b_repr, 'tuple': b_tuple, 'list': b_list, 'set': b_set,
    'frozenset': b_set, 'dict': b_dict, 'enumerate': b_enumerate, 'zip': b_zip, 'divmod': b_divmod,
    'min': minmax('min'), 'max': minmax('max'), 'abs': b_abs, 'getattr': b_getattr, 'hasattr': b_hasattr,
    'setattr': b_setattr, 'sum': b_sum, 'any': b_any, 'all': b_all, 'sorted': b_sorted, 'map': b_map,
    'type': b_type, 'iter': b_iter, 'float': b_float, 'bytearray': b_bytearray, 'bytes': b_bytes, 'slice': b_slice,
    'list.append': m_append, 'list.extend': m_extend, 'list.pop': m_list_pop, 'list.sort': m_list_sort,
    'list.index': m_list_index, 'list.insert': m_list_insert, 'set.add': m_append,
    'str.join': m_join, 'bytes.join': m_join,
    'dict.get': m_dict_get, 'dict.items': m_dict_items('items'), 'dict.keys': m_dict_items('keys'),
    'dict.values': m_dict_items('values'), 'dict.update': m_dict_update, 'dict.pop': m_dict_pop,
    'dict.copy': m_dict_copy, 'dict.setdefault': m_dict_setdefault,
    'collections.defaultdict': b_defaultdict, 'collections.namedtuple': b_namedtuple, 'str.format': m_format, 're.compile': b_re_compile, 're.pattern.sub': m_re('sub'),
    're.pattern.split': m_re('split'), 're.pattern.findall': m_re('findall'), 'six.iteritems': m_dict_items('items'),
    'bytes.find': m_find, 'bytes.index': m_index, 'bytes.encode': m_encode, 'str.encode': m_encode, 'bytes.decode': m_decode,
    'unicode.encode': m_encode,
    'str.startswith': x_startswith('startswith'), 'bytes.startswith': x_startswith('startswith'),
    'str.endswith': x_startswith('endswith'), 'bytes.endswith': x_startswith('endswith'),
    'slice.indices': m_indices, 'str.replace': m_replace, 'unicode.replace': m_replace, 'str.translate': m_translate,
    'object.__new__': o_new, 'object.__init__': b_super_init,
    'struct.calcsize': s_calcsize, 'struct.pack': s_pack, 'marshal.dumps': s_marshal_dumps, 'marshal.loads': s_marshal_loads, 'struct.unpack': s_unpack,
    'struct.unpack_from': s_unpack_from, 'struct.pack_into': s_pack_into,
    'pypytools.cast.as_signed': c_as_signed,
    'PyBytes_GET_SIZE': c_get_size, 'PyString_GET_SIZE': c_get_size, 'PyByteArray_GET_SIZE': c_get_size,
    'PyBytes_AS_STRING': c_as_string, 'PyString_AS_STRING': c_as_string, 'PyByteArray_AS_STRING': c_as_string,
    'PyBytes_FromStringAndSize': c_from_string, 'PyString_FromStringAndSize': c_from_string,
    '_PyString_GET_SIZE': c_get_size, '_PyString_AS_STRING': c_as_string,
    '_PyString_FromStringAndSize': c_from_string,
    'PyBytes_CheckExact': c_check('bytes'), 'PyString_CheckExact': c_check('bytes'),
    '_PyString_CheckExact': c_check('bytes'), 'PyByteArray_CheckExact': c_check('bytearray'),
    'PyByteArray_Resize': c_ba_resize, 'memcpy': c_memcpy, 'memset': c_memset,
    '_Py_HashBytes': c_hashbytes, 'PyObject_GenericSetAttr': m_generic_setattr,
    'print': noop, 'warnings.warn': noop,
}
