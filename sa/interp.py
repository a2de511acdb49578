"""Abstract interpreter (disjunctive; integers in linear normal form).

ev()  : expression -> list of (state, value)      [state.exc set = raised]
ex()  : statement  -> list of (state, control)    control: None/break/continue/return/raise
"""
import ast
import builtins
import struct as _struct

from .frontend import Unsupported, Sig
from .terms import (atoms_of, Lin, Atom, atom, iatom, fresh, as_lin, is_int, add, sub, neg, mul, floordiv, mod, scale,
                    band, bor, bxor, shl, shr, wrap, rng, show, CTYPES, CWIDTH, CFMT, FMTRANGE,
                    FMTWIDTH)
from .facts import (Cond, Facts, ge, lt, ge0, eq0, pred, cnot, cand, cor)
from .values import (last_id, Ref, HObj, HList, HDict, HGen, Ptr, Func, Bound, Class, Builtin, Ext, Exc, Event, State,
                     MODULE_HEAP, token, untoken, has_token)

MAXSTATES = 4000
ALIAS = {'six.text_type': 'str', 'six.binary_type': 'bytes', 'unicode': 'str', 'six.string_types': 'str'}


def pinned(st, x):
    """the constant x is known to equal, or x"""
    y = as_lin(x)
    if not isinstance(y, Lin) or len(y.terms) != 1:
        return x
    a = y.terms[0][0]
    for f in st.facts.ge:
        if isinstance(f, Lin) and len(f.terms) == 1 and f.terms[0][0] is a and f.const % f.terms[0][1] == 0:
            v = -f.const // f.terms[0][1]
            if st.facts.equal_int(a, v):
                return y.terms[0][1] * v + y.const
    return x


class Frame(object):
    def __init__(self, world, func, module, parent=None, closure=None):
        self.world, self.func, self.module, self.parent = world, func, module, parent
        self.closure = closure
        self.collect = None
        self.compiled = module.compiled
        self.types = {}
        self.locals = None
        self.cls = func.cls if func is not None else None
        if func is not None:
            if func.sig is not None:
                self.types.update(func.sig.locals)
                self.types.update(dict(func.sig.args))
            self.locals = local_names(func.node)
        self.globalsdecl = set()

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


_locals_cache = {}


def local_names(node):
    r = _locals_cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    out = set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        if a.vararg:
            out.add(a.vararg.arg)
        if a.kwarg:
            out.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda,)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    _locals_cache[id(node)] = (node, out)
    return out


class Undef(object):
    def __repr__(self):
        return '<unbound>'


UNDEF = Undef()


class Range(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def __hash__(self):
        return hash((self.start, self.stop, self.step))

    def __eq__(self, o):
        return isinstance(o, Range) and (self.start, self.stop, self.step) == (o.start, o.stop, o.step)


class Cell(object):
    """address of a C local: its value lives in the heap"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(('cell', self.id))

    def __eq__(self, o):
        return isinstance(o, Cell) and o.id == self.id


class Addr(object):
    """value of &name, for a C local kept in a Cell"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(('addr', self.id))

    def __eq__(self, o):
        return isinstance(o, Addr) and o.id == self.id


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Star(object):
    """unknown tail of a tuple / list / argument list"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(('star', self.v))

    def __eq__(self, o):
        return isinstance(o, Star) and o.v == self.v

    def __repr__(self):
        return '*%r' % (self.v,)


class Native(object):
    """callable implemented by a rule: fn(interp, st, fr, args, kw) -> results"""
    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name

    def __repr__(self):
        return '<native %s>' % self.name


def is_law(name):
    import os
    from .law import LAWDIR
    return '.' not in name and os.path.exists(os.path.join(LAWDIR, name + '.py'))


CONST = (str, bytes, float, type(None), complex, type(Ellipsis))


class NotText(Exception):
    """__str__ or __repr__ returned something else"""


def is_const(v):
    return isinstance(v, (bool, int) + CONST) or (isinstance(v, tuple) and all(is_const(x) for x in v))


def boolval(c):
    """Cond/bool as integer value"""
    if isinstance(c, bool):
        return int(c)
    return iatom('bool', c, lo=0, hi=1)


CTORS = ('__init__', '__cinit__', '__new__', '_init', '_set_list_tag')


def uncond(v):
    """the truth value, if v is one (as a bool or as the number)"""
    if isinstance(v, (bool, Cond)):
        return v
    if isinstance(v, Lin):
        t = v.terms
        if v.const == 0 and len(t) == 1 and t[0][1] == 1:
            v = t[0][0]
        elif v.const == 1 and len(t) == 1 and t[0][1] == -1 and t[0][0].op == 'bool':
            return cnot(t[0][0].args[0])
    if isinstance(v, Atom) and v.op == 'bool':
        return v.args[0]
    return None


def as_num(v):
    if isinstance(v, Cond):
        return boolval(v)
    if isinstance(v, Atom) and v.kind == 'obj' and v.typ in (None, 'object', 'int'):
        return as_lin(v)
    return v


def numeric(v):
    return is_int(v) or isinstance(v, bool) or isinstance(v, Cond)


PTRTYPES = ('char*', 'const char*', 'void*', 'const void*')


def strip_ptr(t):
    t = t.replace('const ', '').strip()
    assert t.endswith('*'), t
    return t[:-1].strip()


def one_atom(v):
    if isinstance(v, Lin) and v.const == 0 and len(v.terms) == 1 and v.terms[0][1] == 1:
        return v.terms[0][0]
    return v


class Interp(object):
    def __init__(self, world):
        self.w = world
        self.budget = None
        self.silent = 0
        self.generating = False   # running the code generator: all loops are concrete
        self.unroll = 0     # >0: loops are iterated that often instead of summarised
        self.mapdepth = 0
        self.maxrec = 1

    # ------------------------------------------------------------------ utils
    def raise_(self, st, cls, args=(), node=None):
        s = st.fork()
        s.exc = Exc(cls, args, node)
        return s

    def branch(self, st, cond):
        """-> (list of true states, list of false states)"""
        if isinstance(cond, bool):
            return ([st], []) if cond else ([], [st])
        t, f = [], []
        for fx in st.facts.assume(cond, True):
            s = st.fork()
            s.facts = fx
            t.append(s)
        for fx in st.facts.assume(cond, False):
            s = st.fork()
            s.facts = fx
            f.append(s)
        return t, f

    def assume(self, st, cond):
        return self.branch(st, cond)[0]

    def event(self, st, fr, kind, data, node=None):
        where = None
        if fr is not None and fr.func is not None:
            where = '%s:%s' % (getattr(node, '_file', None) or fr.module.path,
                               getattr(node, 'lineno', '?'))
        stale = False
        if kind in ('load', 'store') and isinstance(data[0], Atom) and data[0].op == 'memv':
            o = self.owner(st, data[0].args[0])
            stale = o is not None and o.fields.get('ver', 0) != data[0].args[1]
            data = (data[0].args[0],) + tuple(data[1:])
        e = Event(kind, data, where, st.facts, fr.func if fr else None)
        e.stale = stale
        if kind in ('load', 'store'):
            e.size = self.region_size(st, data[0])
        st.events.append(e)
        if self.w.log is not None and not self.silent:
            e.chain = [f.func for f in fr.chain() if f.func is not None]
            self.w.log.append(e)
        return e

    # ------------------------------------------------------------ truthiness
    def cond(self, v, st):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, Lin):
            if len(v.terms) == 1 and v.const == 0 and v.terms[0][0].op == 'bool':
                return v.terms[0][0].args[0]
            return cnot(eq0(v))
        if isinstance(v, tuple):
            if any(isinstance(x, Star) for x in v):
                return pred(atom('truth', self.canon(v, st)))
            return bool(v)
        if isinstance(v, (int, str, bytes, float, type(None))):
            return bool(v)
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HList):
                if any(isinstance(x, Star) for x in o.items):
                    return pred(atom('truth', self.canon(v, st)))
                return bool(o.items)
            if isinstance(o, HDict):
                if o.open is not None:
                    return pred(atom('truth', o.open))
                return bool(o.items)
            if o.sym is not None and not o.exact:
                return pred(atom('truth', o.sym))
            if isinstance(o.cls, Class):
                f = o.cls.lookup('__bool__')
                if f is not None:
                    return ('call', f)
            return True
        if isinstance(v, Atom):
            if v.typ in ('bytes', 'str', 'bytearray'):
                return ge0(sub(self.length(v), 1))
            return pred(atom('truth', v))
        if isinstance(v, Ptr):
            return True
        return True

    def truth(self, st, v, fr):
        """list of (state, bool)"""
        c = self.cond(v, st)
        if isinstance(c, tuple):
            out = []
            for s, r in self.call(Bound(v, c[1]), [], {}, st, fr, None):
                if s.exc:
                    out.append((s, None))
                else:
                    out += self.truth(s, r, fr)
            return out
        t, f = self.branch(st, c)
        return [(s, True) for s in t] + [(s, False) for s in f]

    def length(self, v):
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, Atom):
            if v.op == 'slice':
                b, i, j = v.args
                return iatom('len', v, lo=0) if not self._exact_slice(v) else sub(j, i)
            if v.op == 'cat':
                out = 0
                for x in v.args:
                    out = add(out, self.length(x))
                return out
            if v.op == 'pack':
                return _struct.calcsize(v.args[0])
            if v.op in ('bytesfrom', 'newbytes', 'zeros'):
                return v.args[-1] if not isinstance(v.args[-1], Atom) else as_lin(v.args[-1])
            return iatom('len', v, lo=0)
        raise Unsupported('len of %r' % (v,))

    def region_size(self, st, region):
        """bytes in a memory region, or None"""
        if isinstance(region, Atom) and region.op == 'mem':
            o = self.owner(st, region)
            return None if o is None else o.fields['len']
        if isinstance(region, (bytes, Atom)):
            return self.length(region)
        return None

    def owner(self, st, region):
        """the bytearray object of a memory region"""
        for o in st.heap.values():
            if isinstance(o, HObj) and o.cls == 'bytearray' and o.sym is region:
                return o
        return None

    def mem_read(self, st, region, fmt, off):
        """content of a mutable region: the last store that covers it"""
        w = FMTWIDTH[fmt]
        f = st.facts
        def unknown():
            if fmt in FMTRANGE:
                return as_lin(iatom('fresh', 'mem', region, fmt, as_lin(off), len(st.events),
                                    lo=FMTRANGE[fmt][0], hi=FMTRANGE[fmt][1]))
            return atom('fresh', 'mem', region, fmt, as_lin(off), len(st.events), typ='float')
        maybe = False
        def base(v):
            return v if v == 0 or not maybe else unknown()
        for e in reversed(st.events):
            if e.kind == 'loop':
                if any(x.kind in ('store', 'loop') for p in e.data[2] for x in p[1]):
                    return unknown()
            elif e.kind == 'store' and e.data[0] is region:
                o, n, kind = e.data[1:4]
                if f.entails(ge(o, add(off, w))) or f.entails(ge(off, add(o, n))):
                    continue
                if kind == 'set' and e.data[4] == 0:
                    if f.entails(ge(off, o)) and f.entails(ge(add(o, n), add(off, w))):
                        return 0
                    maybe = True        # partly cleared: fine if the rest is zero too
                    continue
                if maybe:
                    return unknown()
                k = kind[-1:] if isinstance(kind, str) else ''
                if f.equal_int(off, o) and k in FMTWIDTH and FMTWIDTH[k] == w and n == w:
                    v = e.data[4]
                    if k in FMTRANGE and fmt in FMTRANGE and is_int(v):
                        bits = 8 * w
                        v = mod(v, 2 ** bits)
                        if fmt in 'bhiq':
                            v = self.signed(st, v, bits)
                        return v
                    if k == fmt:
                        return v
                return unknown()
            elif e.kind == 'bresize_to' and e.data[0] is region:
                # what is beyond the old size is not initialised
                old = e.data[2]
                if old is not None and not maybe and f.entails(ge(off, old)):
                    return iatom('garbage', region, fmt, as_lin(off), lo=-1, hi=2 ** 64)
                if maybe or old is None or not f.entails(ge(old, add(off, w))):
                    return unknown()
            elif e.kind == 'bappend' and e.data[0] is region:
                if f.entails(ge(off, e.data[1])) and e.data[2] == 0:
                    return 0
                if not f.entails(ge(e.data[1], add(off, w))):
                    return unknown()
        if region.args[0] == 'ba':
            return 0
        own = self.owner(st, region)
        end0 = own.fields.get('end0') if own is not None else None
        if end0 is None:
            end0 = self.symval(st, ('attr', region.args[1], 'end'), 'Py_ssize_t')
        if f.entails(ge(off, end0)):
            return 0
        if maybe:
            return unknown()
        if fmt in FMTRANGE:
            return as_lin(iatom('rd', region, fmt, as_lin(off), lo=FMTRANGE[fmt][0], hi=FMTRANGE[fmt][1]))
        return atom('rd', region, fmt, as_lin(off), typ='float')

    def signed(self, st, v, n):
        """the signed number with the n-bit pattern v"""
        if isinstance(v, Lin):
            for x, c in v.terms:
                if x.op == 'fdiv' and x.args[1] == 2 ** n and c == -2 ** n and is_int(x.args[0]):
                    w = x.args[0]
                    if sub(v, sub(w, scale(as_lin(x), 2 ** n))) == 0 and \
                            st.facts.entails(ge0(add(w, 2 ** (n - 1)))) and st.facts.entails(lt(w, 2 ** (n - 1))):
                        return w
            if st.facts.entails(ge0(v)) and st.facts.entails(lt(v, 2 ** (n - 1))):
                return v
        return sub(v, scale(floordiv(v, 2 ** (n - 1)), 2 ** n))

    def _exact_slice(self, v):
        return v.op == 'slice' and getattr(self, '_exact', {}).get(v, False)

    # ----------------------------------------------------------- canonical form
    def canon(self, v, st, depth=0):
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj):
                if o.sym is not None:
                    return o.sym
                if depth > 6:
                    return ('obj', o.cls.name, v.id)
                cn = o.cls.name if isinstance(o.cls, Class) else o.cls
                k = o.fields.get('__class__')
                if k is not None:
                    cn = self.canon(k, st, depth + 1)
                return ('obj', cn) + tuple((n, self.canon(x, st, depth + 1))
                                           for n, x in sorted(o.fields.items())
                                           if n not in ('cbuf', '__class__'))
            if isinstance(o, HList):
                return (o.kind,) + tuple(self.canon(x, st, depth + 1) for x in o.items)
            if isinstance(o, HGen):
                return ('generator', o.fn.qualname, o.done) + tuple(self.canon(x, st, depth + 1) for x in o.args)
            if isinstance(o, HDict):
                return ('dict',) + tuple(sorted(((repr(k), self.canon(x, st, depth + 1))
                                                 for k, x in o.items.items())))
        if isinstance(v, tuple):
            return tuple(self.canon(x, st, depth + 1) for x in v)
        if isinstance(v, Star):
            return ('star', self.canon(v.v, st, depth + 1))
        if isinstance(v, Bound):
            return ('bound', self.canon(v.self, st, depth + 1),
                    v.func.name if hasattr(v.func, 'name') else str(v.func))
        if isinstance(v, (Func, Class)):
            return ('def', v.qualname)
        if isinstance(v, (Builtin, Native)):
            return ('def', v.name)
        if isinstance(v, Cond):
            return v
        if isinstance(v, Atom) and v.kind == 'int':
            return as_lin(v)
        if isinstance(v, Range):
            return ('range', v.start, v.stop, v.step)
        return v

    # ---------------------------------------------------------------- C types
    def ctype(self, e, fr):
        """static C type of an expression, None for Python objects"""
        if not fr.compiled:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return 'bint'
            if isinstance(e.value, int):
                if -2 ** 31 <= e.value < 2 ** 31:
                    return 'int'
                if e.value < 2 ** 32 and (getattr(e, '_chex', False)):
                    return 'unsigned int'
                return 'long' if e.value < 2 ** 63 else 'unsigned long'
            if isinstance(e.value, float):
                return 'double'
            return None
        if isinstance(e, ast.Name):
            if e.id in fr.types:
                t = fr.types[e.id]
                return t if self.is_c(t) or self.w.class_named(t, fr.module) or t in ('bytes', 'str') else None
            if fr.locals is not None and e.id in fr.locals:
                return self.inferred(e.id, fr)
            t = fr.module.types.get(e.id)
            if t:
                return t
            v = fr.module.c.get(e.id)
            if isinstance(v, int) and not isinstance(v, bool):
                return 'long' if abs(v) >= 2 ** 31 else 'int'
            if isinstance(v, Ext) and isinstance(v.sig, str):
                return v.sig
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                m = fr.module.c.get(e.value.id)
                m = self.w.resolve(m) if m is not None else None
                from .world import Module
                if isinstance(m, Module):
                    v = m.c.get(e.attr)
                    if isinstance(v, int):
                        return 'int'
                    return None
            t = self.static_class(e.value, fr)
            if t is not None:
                return self.w.pxd_class_attr(t, e.attr)
            return None
        if isinstance(e, ast.BinOp):
            l, r = self.ctype(e.left, fr), self.ctype(e.right, fr)
            if self.is_ptr(l):
                return l
            if self.is_ptr(r):
                return r
            if self.is_num(l) and self.is_num(r):
                if isinstance(e.op, (ast.LShift, ast.RShift)):
                    return self.promote(l, 'int')
                return self.promote(l, r)
            return None
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return 'bint'
            t = self.ctype(e.operand, fr)
            return self.promote(t, 'int') if self.is_num(t) else None
        if isinstance(e, ast.Compare):
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.ctype(e.body, fr), self.ctype(e.orelse, fr)
            return a if a == b else (self.promote(a, b) if self.is_num(a) and self.is_num(b) else None)
        if isinstance(e, ast.Subscript):
            t = self.ctype(e.value, fr)
            if self.is_ptr(t):
                return strip_ptr(t)
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                if f.id == '__cast__':
                    return e.args[0].value
                if f.id == '__sizeof__':
                    return 'size_t'
                if f.id == 'len' and e.args and self.ctype(e.args[0], fr) in ('bytes', 'str', 'list', 'tuple'):
                    return 'Py_ssize_t'
                v = fr.module.c.get(f.id)
                v = self.w.resolve(v) if v is not None else None
                if isinstance(v, (Func, Ext)) and isinstance(v.sig, Sig):
                    return v.sig.ret if self.is_c(v.sig.ret) else self._cls_ret(v.sig.ret, fr)
                if f.id in ('max', 'min'):
                    ts = [self.ctype(a, fr) for a in e.args]
                    if all(self.is_num(t) for t in ts):
                        t = ts[0]
                        for u in ts[1:]:
                            t = self.promote(t, u)
                        return t
                return None
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name):
                    m = fr.module.c.get(f.value.id)
                    m = self.w.resolve(m) if m is not None else None
                    from .world import Module
                    if isinstance(m, Module):
                        v = m.c.get(f.attr)
                        if isinstance(v, (Func, Ext)) and isinstance(v.sig, Sig):
                            return v.sig.ret if self.is_c(v.sig.ret) else None
                        return None
                k = self.static_class(f.value, fr)
                if k is not None:
                    fn = k.lookup(f.attr)
                    if isinstance(fn, Func) and fn.sig is not None and fn.sig.kind != 'def':
                        return fn.sig.ret if self.is_c(fn.sig.ret) else None
            return None
        return None

    def _cls_ret(self, t, fr):
        return t if t and self.w.class_named(t, fr.module) else None

    def inferred(self, name, fr):
        """Cython's safe type inference for a local assigned exactly once from a
        C value (integers are only inferred outside arithmetic; we only need the
        read-through case, which matters for pointer dereferences)"""
        cache = getattr(fr.func, '_inferred', None) if fr.func is not None else None
        if fr.func is None:
            return None
        if cache is None:
            cache = fr.func._inferred = {}
        if name in cache:
            return cache[name]
        cache[name] = None
        vals = []
        for n in ast.walk(fr.func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vals.append(n.value)
                    elif isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == name
                                                          for x in t.elts):
                        return None
            elif isinstance(n, (ast.AugAssign, ast.For, ast.AnnAssign)):
                t = n.target
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                    return None
        if len(vals) == 1:
            t = self.ctype(vals[0], fr)
            if t in CWIDTH and CWIDTH[t] == 8 or self.is_ptr(t) or t in ('double', 'float'):
                cache[name] = t
        return cache[name]

    def static_class(self, e, fr):
        if isinstance(e, ast.Name):
            if fr.cls is not None and fr.func is not None and fr.func.node.args.args and \
               fr.func.node.args.args[0].arg == e.id and fr.func.kind is None:
                return fr.cls
            t = fr.types.get(e.id)
            return self.w.class_named(t, fr.module) if t else None
        if isinstance(e, ast.Attribute):
            k = self.static_class(e.value, fr)
            if k is not None:
                t = self.w.pxd_class_attr(k, e.attr)
                return self.w.class_named(t, k.module) if t else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == '__cast__':
            return self.w.class_named(e.args[0].value, fr.module)
        return None

    def is_ptr(self, t):
        return isinstance(t, str) and t.endswith('*')

    def is_num(self, t):
        return isinstance(t, str) and (t in CTYPES or t in ('float', 'double'))

    def is_c(self, t):
        return self.is_num(t) or self.is_ptr(t) or t == 'void'

    def promote(self, a, b):
        if 'double' in (a, b):
            return 'double'
        if 'float' in (a, b):
            return 'float'
        def up(t):
            if CWIDTH[t] < 4 or t == 'bint':
                return 'int'
            return t
        a, b = up(a), up(b)
        wa, wb = CWIDTH[a], CWIDTH[b]
        ua, ub = CTYPES[a][0] == 0, CTYPES[b][0] == 0
        if wa != wb:
            return a if wa > wb else b
        if ua:
            return a
        return b if ub else a

    def cwrap(self, v, t, force=False):
        if t is None or not is_int(v):
            return v
        if t == 'bint':
            return v
        if t not in CTYPES:
            return v
        if CWIDTH[t] >= 8 and not (self.w.strict64 or force):
            lo, hi = rng(v)
            r = CTYPES[t]
            if isinstance(v, int):
                return wrap(v, t)
            if CTYPES[t][0] == 0 and (lo is None or lo < 0):
                return wrap(v, t)     # signed -> unsigned conversions are never ignored
            return v
        return wrap(v, t)

    def coerce(self, st, v, t, src, fr, node=None):
        """conversion of a value (static type src) to the declared type t"""
        if t is None or t in ('object', ''):
            return [(st, v)]
        if t == 'bint':
            if isinstance(v, (bool, Cond)) or v in (0, 1):
                return [(st, v)]
            c = self.cond(v, st)
            if isinstance(c, tuple):
                return [(st, v)]
            return [(st, c)]
        if t in CTYPES:
            if isinstance(v, Ref) and self.intval(v, st) is not None:
                v = self.intval(v, st)
            if isinstance(v, (bool, Cond)):
                return [(st, boolval(v) if not isinstance(v, bool) else int(v))]
            if isinstance(v, Atom) and v.kind == 'obj':
                if v.typ in ('bytes', 'str'):
                    return [(st, v)]
                v = as_lin(v)
            if isinstance(v, (bytes, str)) and len(v) == 1:
                return [(st, ord(v))]
            if not is_int(v):
                if v is None or isinstance(v, (str, bytes, tuple)):
                    return [(self.raise_(st, 'TypeError', (), node), None)]
                return [(st, v)]
            if src is not None and self.is_num(src):
                x = self.cwrap(v, t)
                if x is not v and x != v and st.facts.entails(ge(v, CTYPES[t][0])) and \
                        st.facts.entails(ge(CTYPES[t][1], v)):
                    return [(st, v)]
                return [(st, x)]
            lo, hi = rng(v)
            a, b = CTYPES[t]
            if (lo is not None and lo >= a and hi is not None and hi <= b):
                return [(st, v)]
            if CWIDTH[t] >= 8 and not self.w.strict64:
                if not isinstance(v, (Lin, Atom)):
                    return [(st, v)] if a <= v <= b else [(self.raise_(st, 'OverflowError', (), node), None)]
                if a == 0:
                    ok, bad = self.branch(st, ge0(v))
                    return [(s, v) for s in ok] + [(self.raise_(s, 'OverflowError', (), node), None) for s in bad]
                return [(st, v)]
            ok, bad = self.branch(st, cand(ge(v, a), ge(b, v)))
            return [(s, v) for s in ok] + [(self.raise_(s, 'OverflowError', (), node), None) for s in bad]
        if self.is_ptr(t):
            if isinstance(v, Ptr):
                return [(st, Ptr(v.region, v.off, t))]
            if isinstance(v, Atom) and v.typ == 'bytes' or isinstance(v, bytes):
                return [(st, Ptr(v, 0, t))]
            return [(st, v)]
        k = self.w.class_named(t, fr.module if fr else None)
        if k is not None and isinstance(v, Atom) and v.kind == 'obj':
            st = st.fork() if False else st
            return [(st, self.symobj(st, k, v))]
        return [(st, v)]

    # ------------------------------------------------------ symbolic objects
    def symobj(self, st, cls, sym, exact=False):
        for i, o in st.heap.items():
            if isinstance(o, HObj) and o.sym is sym and (o.cls is cls or (
                    isinstance(o.cls, Class) and o.cls.is_sub(cls))):
                return Ref(i)
        return st.alloc(HObj(cls, {}, sym, exact))

    def symval(self, st, name_atom_args, t, module=None, cls_hint=None):
        """symbolic value of declared type t: args is the atom tuple"""
        if t in CTYPES:
            if t == 'bint':
                return iatom(*name_atom_args, lo=0, hi=1)
            lo, hi = CTYPES[t]
            return iatom(*name_atom_args, lo=lo, hi=hi)
        k = cls_hint or self.w.class_named(t, module)
        if k is not None:
            return self.symobj(st, k, atom(*name_atom_args, typ=t))
        if t in ('float', 'double'):
            return atom(*name_atom_args, typ='float')
        if t in ('bytes', 'str', 'unicode', 'tuple', 'list', 'type', 'dict'):
            return atom(*name_atom_args, typ=t)
        return atom(*name_atom_args, typ='object')

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name, fr, node=None):
        from .world import Module, Lazy
        w = self.w
        if isinstance(v, Module):
            if fr is not None and not fr.compiled and v.compiled and False:
                pass
            r = w.mod_attr(v, name)
            if r is None and name not in v.globals:
                if v.name == 'capnpy':
                    return [(st, Builtin('capnpy.' + name))]
                return [(self.raise_(st, 'AttributeError', (v.name, name), node), None)]
            return [(st, r)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj):
                return self.obj_getattr(st, v, o, name, fr, node)
            if isinstance(o, (HList, HDict)):
                return [(st, Bound(v, Builtin('%s.%s' % (o.kind if isinstance(o, HList) else 'dict', name))))]
        if isinstance(v, Super):
            mro = self.class_of(st, v.obj).mro()
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.dict:
                    f = c.dict[name]
                    return [(st, self.bindfunc(f, v.obj))]
            return [(st, Bound(v.obj, Builtin('object.' + name)))]
        if isinstance(v, Class):
            return self.class_getattr(st, v, name, fr, node)
        if isinstance(v, (Builtin,)):
            if v.name == 'cython' and name == 'compiled':
                return [(st, bool(fr is not None and fr.module.compiled))]
            if v.name == 'keyword' and name == 'kwlist':
                import keyword
                return [(st, tuple(keyword.kwlist))]
            full = '%s.%s' % (v.name, name)
            known = CONST_IMPORTS.get((v.name, name))
            if known is not None and not callable(known):
                return [(st, known)]
            return [(st, w.mocks[full] if full in w.mocks else Builtin(full))]
        if isinstance(v, Atom):
            # refined by isinstance?
            for k, val in st.facts.preds.items():
                if val and k.op == 'isinst' and k.args[0] is v:
                    c = k.args[1]
                    c = self.w.class_named(c) if isinstance(c, str) else c
                    if isinstance(c, Class):
                        r = self.symobj(st, c, v)
                        return self.getattr(st, r, name, fr, node)
            if v.typ == 'type':
                k = w.class_named('Struct')
                if k is not None and name in ('from_buffer', '__new__', '__static_data_size__', '__static_ptrs_size__'):
                    f = k.lookup(name)
                    if name == '__new__':
                        return [(st, Bound(v, Builtin('object.__new__')))]
                    if isinstance(f, Func) and f.kind == 'classmethod':
                        return [(st, Bound(v, f))]
                    if name.startswith('__static'):
                        return [(st, iatom('attr', v, name, lo=0))]
            if v.typ in ('bytes', 'str', 'tuple', 'bytearray', 'list'):
                return [(st, Bound(v, Builtin('%s.%s' % (v.typ, name))))]
            return [(st, atom('attr', v, name, typ='object'))]
        if isinstance(v, (str, bytes, tuple, int, float)) and not isinstance(v, bool):
            if hasattr(v, name):
                return [(st, Bound(v, Builtin('%s.%s' % (type(v).__name__, name))))]
            return [(self.raise_(st, 'AttributeError', (name,), node), None)]
        if isinstance(v, (Lin, Cond, bool)):
            return [(st, Bound(v, Builtin('int.' + name)))]
        if v is None:
            return [(self.raise_(st, 'AttributeError', ('None', name), node), None)]
        if isinstance(v, Func):
            if name == '__name__':
                return [(st, v.name)]
            return [(st, v.__dict__.get('_attrs', {}).get(name))]
        if isinstance(v, Ptr):
            raise Unsupported('attribute of a pointer')
        if isinstance(v, Bound) and name in ('__func__', '__name__'):
            return [(st, v.func)]
        if isinstance(v, Native):
            return [(st, Builtin('native.' + name))]
        if isinstance(v, Ext):
            return [(st, Builtin(v.cname + '.' + name))]
        if isinstance(v, Range) and name == '__class__':
            return [(st, Builtin('range'))]
        raise Unsupported('attribute %s of %r' % (name, v))

    def class_of(self, st, v):
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj):
                return o.cls
        if isinstance(v, Class):
            return v
        return None

    def bindfunc(self, f, obj):
        if isinstance(f, Func):
            if f.kind == 'staticmethod':
                return f
            return Bound(obj, f)
        if isinstance(f, Native):
            return Bound(obj, f)
        return f

    def obj_getattr(self, st, ref, o, name, fr, node=None):
        w = self.w
        cls = o.cls
        if name == '__dict__' and isinstance(cls, Class) and '@dict' in cls.dict:
            return [(st, w.codemodel.scope_dict(self, st, ref))]
        if name == '__class__':
            if '__class__' in o.fields:
                return [(st, o.fields['__class__'])]
            if isinstance(cls, Class) and (o.exact or o.sym is None):
                return [(st, cls)]
            return [(st, atom('class', o.sym, typ='type'))]
        if isinstance(cls, Class):
            f = cls.lookup(name)
            if isinstance(f, Func) and f.kind == 'property':
                if name in o.fields and o.sym is None:
                    pass
                else:
                    return self.dispatch_call(st, ref, name, [], {}, fr, None if isinstance(node, ast.Call) else node)
        if name in o.fields:
            return [(st, o.fields[name])]
        hook = None
        if isinstance(cls, Class):
            for c in cls.mro():
                hook = w.field_hooks.get((c.name, name))
                if hook:
                    break
        else:
            hook = w.field_hooks.get((cls, name))
        if hook:
            v = hook(self, st, ref)
            if v is not NotImplemented:
                st.wobj(ref).fields[name] = v
                return [(st, v)]
        if isinstance(cls, Class):
            if isinstance(f, Func):
                if f.kind == 'staticmethod':
                    return [(st, f)]
                if f.kind == 'classmethod':
                    k = o.fields.get('__class__')
                    if k is None:
                        k = cls if (o.exact or o.sym is None) else atom('class', o.sym, typ='type')
                    return [(st, Bound(k, f))]
                return [(st, Bound(ref, f))]
            if isinstance(f, Native):
                return [(st, Bound(ref, f))]
            if f is None and o.sym is None and any(name in c.dict for c in cls.mro()):
                return [(st, None)]
            t = w.pxd_class_attr(cls, name)
            if t is not None and f is None:
                if o.sym is not None:
                    v = self.symval(st, ('attr', o.sym, name), t, cls.module)
                    st.wobj(ref).fields[name] = v
                    return [(st, v)]
                if w.kind == 'compiled' or True:
                    if t in CTYPES:
                        return [(st, 0)]
                    return [(st, None)]
            if f is not None:
                if o.sym is not None and not o.exact and name.startswith('__') and name.endswith('__') \
                        and cls.name in ('Struct',):
                    return [(st, atom('attr', o.sym, name, typ='object'))]
                if '__class__' in o.fields and isinstance(o.fields['__class__'], Atom):
                    return [(st, atom('attr', o.fields['__class__'], name, typ='object'))]
                return [(st, w.resolve(f))]
            ga = cls.lookup('__getattr__')
            if ga is not None and isinstance(ga, Native):
                return self.call(Bound(ref, ga), [name], {}, st, fr, node)
            if any(not isinstance(b, Class) for c in cls.mro() for b in c.bases
                   if not (isinstance(b, Builtin) and b.name == 'object')):
                return [(st, Bound(ref, Builtin('base.' + name)))]
            if name in ('__init__', '__dict__', '__reduce__', '__hash__'):
                return [(st, Bound(ref, Builtin('object.' + name)))]
        if o.sym is not None:
            v = atom('attr', o.sym, name, typ='object')
            return [(st, v)]
        from .stdlib import TABLE
        if isinstance(cls, str) and '%s.%s' % (cls, name) in TABLE:
            return [(st, Bound(ref, Builtin('%s.%s' % (cls, name))))]
        self.standin(getattr(cls, 'module', None))
        return [(self.raise_(st, 'AttributeError', (getattr(cls, 'name', cls), name), node), None)]

    def standin(self, module):
        """nothing follows from what a stand-in of a law does not have"""
        if module is not None and module.name.startswith('law.'):
            raise Unsupported('a stand-in of a law is used in an unknown way')

    def class_getattr(self, st, cls, name, fr, node=None):
        if name == '__name__':
            return [(st, cls.dict.get('__name__', cls.name))]
        if name == '__dict__':
            s = st.fork()
            return [(s, s.alloc(HDict(dict(cls.dict))))]
        if name == '__new__' and cls.lookup('__new__') is None:
            return [(st, Bound(cls, Builtin('object.__new__')))]
        if name == '__flags__':
            return [(st, 0 if cls.compiled and cls.cdecl is not None else 1 << 9)]
        f = self.w.resolve(cls.lookup(name))
        if f is None and not any(name in c.dict for c in cls.mro()):
            if name == '__class__':
                return [(st, Builtin('type'))]
            if any(isinstance(b, Builtin) and b.name != 'object' and hasattr(getattr(builtins, b.name, None) or Exception, name)
                   for c in cls.mro() for b in c.bases) or \
               any(isinstance(b, Builtin) and not hasattr(builtins, b.name) for c in cls.mro() for b in c.bases):
                return [(st, Builtin('base.' + name))]
            if name in ('__init__', '__setattr__', '__hash__', '__eq__', '__ne__', '__mro__', '__bases__'):
                return [(st, Builtin('object.' + name))]
            return [(self.raise_(st, 'AttributeError', (cls.name, name), node), None)]
        if isinstance(f, Func) and f.kind == 'classmethod':
            return [(st, Bound(cls, f))]
        if isinstance(f, Native) and getattr(f, 'classmethod', False):
            return [(st, Bound(cls, f))]
        return [(st, f)]

    def setattr(self, st, v, name, val, fr, node=None, src=None):
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj):
                t = self.w.pxd_class_attr(o.cls, name) if isinstance(o.cls, Class) else None
                out = []
                res = self.coerce(st, val, t, src, fr, node) if (fr and fr.compiled and t) else [(st, val)]
                for s, x in res:
                    if s.exc:
                        out.append(s)
                        continue
                    s.wobj(v).fields[name] = x
                    self.event(s, fr, 'setattr', (v, name, x), node)
                    out.append(s)
                return out
        if isinstance(v, Class):
            if v.compiled and v.cdecl is not None and fr is not None and fr.module.name != '__magic__':
                return [self.raise_(st, 'TypeError', (v.name, name), node)]
            v.dict[name] = val
            self.event(st, fr, 'setattr', (v, name, val), node)
            return [st]
        from .world import Module
        if isinstance(v, Module):
            v.globals[name] = val
            self.event(st, fr, 'setattr', (v, name, val), node)
            return [st]
        if isinstance(v, Func):
            v.__dict__.setdefault('_attrs', {})[name] = val
            self.event(st, fr, 'setattr', (v, name, val), node)
            return [st]
        self.event(st, fr, 'setattr', (v, name, val), node)
        return [st]

    # ------------------------------------------------------------ expressions
    def evs(self, exprs, st, fr):
        """evaluate several expressions: list of (state, [values])"""
        out = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in out:
                if s.exc:
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        if s2.exc:
                            nxt.append((s2, vs))
                        else:
                            nxt.append((s2, vs + self.unstar(s2, v)))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def unstar(self, st, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref) and isinstance(st.obj(v), HList):
            return list(st.obj(v).items)
        return [Star(self.canon(v, st))]

    def ev(self, e, st, fr):
        if st.exc:
            return [(st, None)]
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, e.value)]

    def e_Name(self, e, st, fr):
        if e.id == '__never__':
            return []
        v = self.lookup(e.id, st, fr, e)
        if isinstance(v, Builtin) and v.name in self.w.mocks:
            v = self.w.mocks[v.name]
        return [(st, v)]

    def lookup(self, name, st, fr, node=None):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Cell):
                v = st.heap[v.id].fields['v']
            if v is UNDEF:
                raise Unsupported('unbound local %s' % name)
            from .world import Lazy
            if isinstance(v, Lazy):
                v2 = self.w.resolve(v)
                return v2
            return v
        if fr.closure is not None and name in fr.closure:
            return fr.closure[name]
        m = fr.module
        from .world import Lazy
        for ns in (m.c, m.globals):
            if name in ns:
                v = ns[name]
                if isinstance(v, Lazy):
                    full = '%s.%s' % (v.modname, v.name)
                    v = self.w.resolve(v)
                    if v is not None and full not in self.w.mocks:
                        ns[name] = v
                return v
        h = getattr(fr.func, 'header', None) if fr.func is not None else None
        if h is None and fr.func is not None:
            for f in fr.chain():
                if f.func is not None and getattr(f.func, 'header', None):
                    h = f.func.header
        if h is not None:
            c = h.const(name)
            if c is not None:
                return c
            if name == 'Py_None':
                return None
            d = self.demangle(name)
            if d is not None:
                return d
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        ph = untoken(name)
        if ph is not None:
            return ph
        if name in EXTRA_BUILTINS or hasattr(builtins, name):
            return Builtin(name)
        raise Unsupported('unknown name %s in %s' % (name, m.name))

    def demangle(self, name):
        """__pyx_f_<len>name<len>name..._func"""
        import re
        m = re.match(r'__pyx_f_(.*)$', name)
        if not m:
            return None
        s = m.group(1)
        parts = []
        while True:
            mm = re.match(r'(\d+)', s)
            if not mm:
                break
            n = int(mm.group(1))
            s = s[len(mm.group(1)):]
            parts.append(s[:n])
            s = s[n:]
            if s.startswith('_') and not re.match(r'\d', s[1:]):
                s = s[1:]
                break
            if s.startswith('_'):
                s = s[1:]
        mod = self.w.load('.'.join(parts))
        if mod is None:
            return None
        return self.w.mod_attr(mod, s)

    def e_Attribute(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if s.exc:
                out.append((s, None))
            else:
                out += self.getattr(s, v, e.attr, fr, e)
        return out

    def e_Tuple(self, e, st, fr):
        return [(s, tuple(v) if not s.exc else None) for s, v in self.evs(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        out = []
        for s, v in self.evs(e.elts, st, fr):
            if s.exc:
                out.append((s, None))
            else:
                s = s.fork()
                out.append((s, s.alloc(HList(v))))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for s, v in self.evs(e.elts, st, fr):
            if s.exc:
                out.append((s, None))
            else:
                s = s.fork()
                out.append((s, s.alloc(HList(v, 'set'))))
        return out

    def e_Dict(self, e, st, fr):
        out = []
        for s, ks in self.evs(e.keys, st, fr):
            for s2, vs in self.evs(e.values, s, fr):
                if s2.exc:
                    out.append((s2, None))
                    continue
                s2 = s2.fork()
                out.append((s2, s2.alloc(HDict(dict((self.hashable(k, s2), v) for k, v in zip(ks, vs))))))
        return out

    def hashable(self, v, st):
        if isinstance(v, Ref):
            return self.canon(v, st)
        try:
            hash(v)
        except TypeError:
            return self.canon(v, st)
        return v

    def e_JoinedStr(self, e, st, fr):
        parts = []
        res = self.evs([p.value for p in e.values if isinstance(p, ast.FormattedValue)], st, fr)
        out = []
        for s, vs in res:
            if s.exc:
                out.append((s, None))
                continue
            it = iter(vs)
            txt = ''
            for p in e.values:
                if isinstance(p, ast.FormattedValue):
                    txt += self.to_str(next(it), s, 'r' if p.conversion == 114 else 's')
                else:
                    txt += p.value
            out.append((s, txt))
        return out

    def e_Lambda(self, e, st, fr):
        n = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)],
                            decorator_list=[], lineno=e.lineno, col_offset=0)
        f = Func(n, fr.module, closure=self.capture(st, fr))
        return [(st, f)]

    def capture(self, st, fr):
        if fr.func is None and fr.cls is None and st.env is fr.module.globals:
            return None
        c = dict(fr.closure or {})
        if st.env is not fr.module.globals:
            c.update(st.env)
        return c

    def e_IfExp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.test, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            for s2, b in self.truth(s, v, fr):
                if s2.exc:
                    out.append((s2, None))
                else:
                    out += self.ev(e.body if b else e.orelse, s2, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        # pure conditions are combined without forking when possible
        out = []
        cur = [(st, None)]
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s, _ in cur:
                for s2, v in self.ev(x, s, fr):
                    if s2.exc or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, fr):
                        if s3.exc:
                            out.append((s3, None))
                        elif b == isand:
                            nxt.append((s3, v))
                        else:
                            if isinstance(v, Cond):
                                v2 = b
                            else:
                                v2 = v
                            out.append((s3, v2))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if s.exc:
                out.append((s, None))
            elif isinstance(e.op, ast.Not):
                c = self.cond(v, s)
                if isinstance(c, tuple):
                    for s2, b in self.truth(s, v, fr):
                        out.append((s2, (not b) if not s2.exc else None))
                else:
                    out.append((s, cnot(c)))
            else:
                t = self.ctype(e, fr)
                v = as_num(v)
                if isinstance(v, float):
                    out.append((s, -v if isinstance(e.op, ast.USub) else v))
                elif not is_int(v) and not isinstance(v, bool):
                    out.append((s, atom('unary', type(e.op).__name__, self.canon(v, s))))
                elif isinstance(e.op, ast.USub):
                    out.append((s, self.cwrap(neg(v), t)))
                elif isinstance(e.op, ast.Invert):
                    out.append((s, self.cwrap(sub(neg(v), 1), t)))
                else:
                    out.append((s, v))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for s, vs in self.evs([e.left, e.right], st, fr):
            if s.exc:
                out.append((s, None))
            else:
                out += self.binop(e.op, vs[0], vs[1], s, fr, e)
        return out

    def binop(self, op, a, b, st, fr, node=None):
        t = self.ctype(node, fr) if node is not None and isinstance(node, ast.BinOp) else None
        k = type(op).__name__
        if isinstance(a, Ref) and self.intval(a, st) is not None:
            a = self.intval(a, st)
        if isinstance(b, Ref) and self.intval(b, st) is not None and not isinstance(a, (str, bytes)):
            b = self.intval(b, st)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr):
                a, b = b, a
            sz = 1
            if a.ctype and strip_ptr(a.ctype) in CWIDTH:
                sz = CWIDTH[strip_ptr(a.ctype)]
            if k == 'Add':
                return [(st, Ptr(a.region, add(a.off, mul(b, sz)), a.ctype))]
            if k == 'Sub':
                if isinstance(b, Ptr):
                    if b.region == a.region:
                        return [(st, sub(a.off, b.off))]
                else:
                    return [(st, Ptr(a.region, sub(a.off, mul(b, sz)), a.ctype))]
            raise Unsupported('pointer arithmetic')
        if isinstance(a, (str, bytes)) and k == 'Mod':
            try:
                return [(st, self.fmt_percent(a, b, st))]
            except NotText as e:
                return [(self.raise_(st, 'TypeError', ('%s returned non-string' % e,), node), None)]
        if isinstance(a, Atom) and a.typ in ('str', 'unicode') and k == 'Mod':
            return [(st, atom('fmt', a, self.canon(b, st), typ='str'))]
        if k == 'Add':
            if isinstance(a, (str, bytes, tuple)) and isinstance(b, type(a)):
                return [(st, a + b)]
            ta, tb = self.seqtype(a), self.seqtype(b)
            if ta and tb:
                if ta != tb:
                    return [(self.raise_(st, 'TypeError', (), node), None)]
                return [(st, self.cat(a, b, ta))]
            if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.obj(a), HList) and \
               isinstance(st.obj(b), HList):
                s = st.fork()
                return [(s, s.alloc(HList(s.obj(a).items + s.obj(b).items)))]
            if isinstance(a, Ref) and isinstance(st.obj(a), HList):
                s = st.fork()
                return [(s, s.alloc(HList(s.obj(a).items + [Star(self.canon(b, s))])))]
        if k == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, bytes, tuple)) and not numeric(x):
                    if isinstance(y, int):
                        return [(st, x * y)]
                    if isinstance(x, bytes) and len(x) == 1:
                        n = y
                        pos, ng = self.branch(st, ge0(n))
                        return [(s, atom('zeros', x, as_lin(n), typ='bytes')) for s in pos] + \
                               [(s, b'') for s in ng]
                    return [(st, atom('repeat', x, as_lin(y), typ=type(x).__name__))]
                if isinstance(x, Ref) and isinstance(st.obj(x), HList) and isinstance(y, int):
                    s = st.fork()
                    return [(s, s.alloc(HList(s.obj(x).items * y)))]
        if isinstance(a, float) or isinstance(b, float) or \
           (isinstance(a, Atom) and a.typ == 'float') or (isinstance(b, Atom) and b.typ == 'float'):
            if is_const(a) and is_const(b):
                try:
                    import operator
                    f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul,
                         'Div': operator.truediv, 'FloorDiv': operator.floordiv}[k]
                    return [(st, f(a, b))]
                except Exception:
                    pass
            if k in ('BitXor', 'BitAnd', 'BitOr', 'LShift', 'RShift'):
                return [(self.raise_(st, 'TypeError', (), node), None)]
            return [(st, atom('fop', k, self.canon(a, st), self.canon(b, st), typ='float'))]
        if a is None or b is None or self.seqtype(a) or self.seqtype(b):
            if k == 'Add' and a is not None and b is not None:
                # a concatenation with something of an unknown type
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, Atom) and y.op != 'sym' and y.typ in ('object', None):
                        return [(st, atom('cat', self.canon(a, st), self.canon(b, st), typ=self.seqtype(x)))]
            if not (self.seqtype(a) and k == 'Mult'):
                return [(self.raise_(st, 'TypeError', (), node), None)]
        a, b = as_num(a), as_num(b)
        if not (is_int(a) or isinstance(a, bool)) or not (is_int(b) or isinstance(b, bool)):
            if isinstance(a, Ref) and isinstance(st.obj(a), HObj) and isinstance(st.obj(a).cls, Class):
                f = st.obj(a).cls.lookup({'BitXor': '__xor__', 'Mod': '__mod__'}.get(k, '?'))
            return [(st, atom('binop', k, self.canon(a, st), self.canon(b, st), typ='object'))]
        if k == 'Add':
            r = add(a, b)
        elif k == 'Sub':
            r = sub(a, b)
        elif k == 'Mult':
            if isinstance(a, (Lin, Atom)) and isinstance(b, (Lin, Atom)):
                a, b = pinned(st, a), pinned(st, b)
            r = mul(a, b)
        elif k in ('FloorDiv', 'Mod') or (k == 'Div' and fr is not None and fr.compiled):
            if not isinstance(b, (Lin, Atom)) and b == 0:
                return [(self.raise_(st, 'ZeroDivisionError', (), node), None)]
            if getattr(node, '_cdiv', False):
                if not st.facts.entails_ge(as_lin(a) if not isinstance(a, int) else a):
                    r = iatom('cdiv', as_lin(a), as_lin(b))
                    return [(st, r)]
            if isinstance(b, (Lin, Atom)):
                c = st.facts
                r = floordiv(a, b) if k != 'Mod' else mod(a, b)
            else:
                r = floordiv(a, int(b)) if k != 'Mod' else mod(a, int(b))
        elif k == 'Div':
            return [(st, atom('fop', 'Div', as_lin(a), as_lin(b), typ='float'))]
        elif k == 'BitAnd':
            r = band(a, b)
        elif k == 'BitOr':
            for x, y in ((a, b), (b, a)):
                l = as_lin(x) if isinstance(x, Atom) else x
                if isinstance(l, Lin) and len(l.terms) == 1 and l.terms[0][0].op == 'bool' and \
                        not isinstance(y, int):
                    at_, c_ = l.terms[0]
                    on, off = self.branch(st, at_.args[0])
                    out = [(s, bor(y, c_ + l.const)) for s in on] + [(s, bor(y, l.const)) for s in off]
                    return [(s, self.cwrap(v, t) if t else v) for s, v in out]
            r = bor(a, b)
        elif k == 'BitXor':
            if isinstance(a, Lin) and isinstance(b, int) and (len(a.terms) > 1 or a.const):
                for x in atoms_of(a):
                    if x.op == 'xor' and isinstance(x.args[1], int) and st.facts.equal_int(a, as_lin(x)):
                        a = as_lin(x)
                        break
            r = bxor(a, b)
        elif k == 'LShift':
            r = shl(a, b)
            return [(st, self.cwrap(r, t, force=True) if t else r)]
        elif k == 'RShift':
            r = shr(a, b)
        elif k == 'Pow':
            if isinstance(a, int) and isinstance(b, int):
                r = a ** b
            else:
                r = iatom('pow', as_lin(a), as_lin(b))
        else:
            raise Unsupported('operator %s' % k)
        if t is not None and k in ('RShift', 'BitOr', 'BitXor', 'BitAnd') and not isinstance(r, int):
            # bit operations on values of the type stay in the type
            if self.ctype(node.left, fr) == t and (k == 'RShift' or self.ctype(node.right, fr) == t):
                return [(st, r)]
        return [(st, self.cwrap(r, t))]

    def seqtype(self, v):
        if isinstance(v, bytes):
            return 'bytes'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, Atom) and v.typ in ('bytes', 'str'):
            return v.typ
        if isinstance(v, Atom) and v.typ == 'unicode':
            return 'str'
        return None

    def cat(self, a, b, t):
        parts = []
        for x in (a, b):
            if isinstance(x, Atom) and x.op == 'cat':
                parts += list(x.args)
            elif isinstance(x, (bytes, str)):
                if not x:
                    continue
                if parts and isinstance(parts[-1], type(x)):
                    parts[-1] = parts[-1] + x
                else:
                    parts.append(x)
            else:
                parts.append(x)
        if not parts:
            return b'' if t == 'bytes' else ''
        if len(parts) == 1:
            return parts[0]
        return atom('cat', *parts, typ=t)

    # -- strings with embedded symbolic values
    def to_str(self, v, st, conv='s'):
        if isinstance(v, str):
            return v if conv == 's' else repr(v)
        if isinstance(v, (bytes, float, type(None), bool, int)):
            return str(v) if conv == 's' else repr(v)
        if isinstance(v, tuple):
            inner = ', '.join(self.to_str(x, st, 'r') for x in v)
            return '(%s,)' % inner if len(v) == 1 else '(%s)' % inner
        if isinstance(v, (Lin, Atom)):
            return token(v)
        if isinstance(v, Cond):
            return token(boolval(v))
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj) and isinstance(o.cls, Class):
                for nm in (('__str__', '__repr__') if conv == 's' else ('__repr__',)):
                    f = o.cls.lookup(nm)
                    if f is not None:
                        r = self.call(Bound(v, f), [], {}, st, Frame(self.w, None, o.cls.module), None)
                        if len(r) == 1 and not r[0][0].exc and isinstance(r[0][1], str):
                            return r[0][1]
                        if len(r) == 1 and not r[0][0].exc and (
                                r[0][1] is None or isinstance(r[0][1], (int, Lin, tuple)) or
                                isinstance(r[0][1], Ref) and r[0][0].obj(r[0][1]).__class__ is HObj):
                            raise NotText(nm)
            if isinstance(o, HList):
                return '[%s]' % ', '.join(self.to_str(x, st, 'r') for x in o.items)
            c = self.canon(v, st)
            return token(c if isinstance(c, Atom) else atom('str', c))
        if isinstance(v, Class):
            return v.name
        return token(atom('str', self.canon(v, st)))

    def fmt_percent(self, f, args, st):
        isb = isinstance(f, bytes)
        if isb:
            if is_const(args):
                return f % args
            return atom('fmt', f, self.canon(args, st), typ='bytes')
        if not isinstance(args, tuple):
            if isinstance(args, Ref) and isinstance(st.obj(args), HDict):
                d = {k: self.to_str(v, st) for k, v in st.obj(args).items.items()}
                return f % d
            args = (args,)
        conv = []
        import re
        specs = re.findall(r'%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', f)
        flags = [fl for fl, s in specs if s != '%']
        specs = [s for _, s in specs if s != '%']
        if len(specs) != len(args):
            raise Unsupported('format %r' % f)
        f2 = re.sub(r'%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z])', lambda m: '%s' if m.group(2) != '%' else m.group(0), f)
        for fl, s, a in zip(flags, specs, args):
            if s in 'dxXiu' and isinstance(a, Ref) and self.intval(a, st) is not None:
                a = self.intval(a, st)
            if s in 'dxX' and isinstance(a, int):
                conv.append(('%' + fl + s) % a)
            elif fl and is_const(a) and not has_token(a):
                conv.append(('%' + fl + s) % (a,))
            elif (fl or s not in 'sdiur') and not is_const(a):
                conv.append(token(atom('fmt', '%' + fl + s, self.canon(a, st), typ='str')))
            else:
                conv.append(self.to_str(a, st, 'r' if s == 'r' else 's'))
        return f2 % tuple(conv)

    # -- comparisons
    def e_Compare(self, e, st, fr):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            cur = [(s, True)]
            for i, op in enumerate(e.ops):
                nxt = []
                for s2, acc in cur:
                    if s2.exc or acc is False:
                        nxt.append((s2, acc))
                        continue
                    lt_ = e.left if i == 0 else e.comparators[i - 1]
                    for s3, c in self.compare(op, vs[i], vs[i + 1], s2, fr, e, lt_, e.comparators[i]):
                        if s3.exc:
                            nxt.append((s3, None))
                        else:
                            nxt.append((s3, cand(acc, c)))
                cur = nxt
            out += cur
        return out

    def compare(self, op, a, b, st, fr, node=None, le=None, re_=None):
        k = type(op).__name__
        if k in ('Is', 'IsNot'):
            c = self.is_(a, b, st)
            return [(st, cnot(c) if k == 'IsNot' else c)]
        if k in ('In', 'NotIn'):
            return [(s, cnot(c) if (k == 'NotIn' and not s.exc) else c)
                    for s, c in self.contains(b, a, st, fr, node)]
        if fr is not None and fr.compiled:
            # char literals
            if is_int(a) and isinstance(b, (str, bytes)) and len(b) == 1:
                b = ord(b)
            elif is_int(b) and isinstance(a, (str, bytes)) and len(a) == 1:
                a = ord(a)
            ta = self.ctype(le, fr) if le is not None else None
            tb = self.ctype(re_, fr) if re_ is not None else None
            if self.is_num(ta) and self.is_num(tb) and ta in CTYPES and tb in CTYPES:
                p = self.promote(ta, tb)
                if is_int(a) and is_int(b) and CTYPES[p][0] == 0:
                    a, b = self.cwrap(a, p), self.cwrap(b, p)
        if k in ('Eq', 'NotEq'):
            res = self.equal(a, b, st, fr, node, 'NotEq' if k == 'NotEq' else 'Eq')
            out = []
            for s, c, done in res:
                if s.exc:
                    out.append((s, None))
                else:
                    out.append((s, c if (k == 'Eq' or done) else cnot(c)))
            return out
        for x, y, n in ((a, b, k), (b, a, self.RICH[k][2])):
            if isinstance(x, Ref) and isinstance(st.obj(x), HObj) and isinstance(st.obj(x).cls, Class) and \
                    self.intval(x, st) is None:
                rc = self.richcmp(n, x, y, st, fr, node)
                if rc is not None:
                    return rc
        if isinstance(a, (str, bytes, tuple)) and isinstance(b, type(a)) and is_const(a) and is_const(b):
            import operator
            f = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[k]
            return [(st, f(a, b))]
        if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
            pass
        a, b = as_num(a), as_num(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            a2, b2 = self.intval(a, st), self.intval(b, st)
            if a2 is not None and b2 is not None:
                a, b = a2, b2
        if not is_int(a) or not is_int(b):
            if a is None or b is None:
                return [(self.raise_(st, 'TypeError', (), node), None)]
            return [(st, pred(atom('cmp', k, self.canon(a, st), self.canon(b, st))))]
        c = {'Lt': lambda: lt(a, b), 'LtE': lambda: ge(b, a), 'Gt': lambda: lt(b, a), 'GtE': lambda: ge(a, b)}[k]()
        return [(st, c)]

    def intval(self, v, st):
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj) and '__int__' in o.fields:
                return o.fields['__int__']
            return None
        return v if is_int(v) else None

    def is_(self, a, b, st):
        if a is b or (isinstance(a, Ref) and a == b):
            return True
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            return self.isnone(x, st)
        if isinstance(a, (Class, Func, Builtin)) and isinstance(b, (Class, Func, Builtin)):
            return self.unalias(a) == self.unalias(b)
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.canon(a, st), self.canon(b, st)
            if isinstance(ca, Atom) and isinstance(cb, Atom):
                if ca is cb:
                    return True
                return pred(atom('is', *sorted([ca, cb], key=lambda x: x.id)))
            return False
        for x, y in ((a, b), (b, a)):
            # a new object is not one that was there before
            if isinstance(x, Ref) and isinstance(y, Atom) and y.op in ('sym', 'attr') and \
               getattr(st.obj(x), 'sym', None) is None:
                return False
            if isinstance(x, Ref) and isinstance(st.obj(x), HObj) and '__int__' not in st.obj(x).fields and \
               (isinstance(y, (int, str, bytes, Cond, tuple)) or
                    isinstance(y, Atom) and y.typ in ('bytes', 'str', 'float') or
                    isinstance(y, (Lin, Atom)) and is_int(y) and all(z.kind == 'int' for z, _ in as_lin(y).terms)):
                return False
        ca, cb = self.canon(a, st), self.canon(b, st)
        if ca == cb:
            return True
        if is_const(ca) and is_const(cb):
            return False
        ca, cb = sorted([ca, cb], key=repr)
        return pred(atom('is', ca, cb))

    def unalias(self, v):
        if isinstance(v, Builtin) and v.name in ALIAS:
            return Builtin(ALIAS[v.name])
        return v

    def isnone(self, v, st):
        if v is None:
            return True
        if isinstance(v, Atom):
            if v.op == 'maybe':
                pass
            if v.op in ('sym', 'param', 'attr', 'call', 'fresh', 'item', 'ret', 'opt') and v.typ in (
                    'object', None, 'bytes', 'unicode', 'str', 'tuple', 'list'):
                if v.op == 'call' and isinstance(v.args[0], str) and (
                        v.args[0].startswith(('str.', 'bytes.', 'unicode.')) or v.args[0] in ('repr', 'str')):
                    return False
                return pred(atom('isnone', v))
            return False
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, HObj) and o.sym is not None and not o.exact and o.fields.get('__nullable__'):
                return pred(atom('isnone', o.sym))
            return False
        return False

    RICH = {'Lt': ('__lt__', 0, 'Gt'), 'LtE': ('__le__', 1, 'GtE'), 'Eq': ('__eq__', 2, 'Eq'),
            'NotEq': ('__ne__', 3, 'NotEq'), 'Gt': ('__gt__', 4, 'Lt'), 'GtE': ('__ge__', 5, 'LtE')}

    def richcmp(self, opname, a, b, st, fr, node=None, reflected=False):
        """comparison methods of the class of a; None if there are none. [(state, cond)]"""
        o = st.obj(a)
        meth, num, swapped = self.RICH[opname]
        f = args = None
        neg = False
        for c in o.cls.mro():
            if not isinstance(c, Class):
                continue
            if c.compiled and c.cdecl is not None and '__richcmp__' in c.dict:
                f, args = self.w.resolve(c.dict['__richcmp__']), [b, num]
                break
            if meth in c.dict and not (c.compiled and c.cdecl is not None):
                f, args = self.w.resolve(c.dict[meth]), [b]
                break
            if opname == 'NotEq' and '__eq__' in c.dict and not (c.compiled and c.cdecl is not None):
                f, args, neg = self.w.resolve(c.dict['__eq__']), [b], True
                break
        if not isinstance(f, (Func, Native)):
            return None
        out = []
        for s, r in self.call(Bound(a, f), args, {}, st, fr, node):
            if s.exc:
                out.append((s, None))
            elif isinstance(r, Builtin) and r.name == 'NotImplemented':
                rc = None
                if not reflected and isinstance(b, Ref) and isinstance(s.obj(b), HObj) and \
                        isinstance(s.obj(b).cls, Class):
                    rc = self.richcmp(swapped, b, a, s, fr, node, True)
                if rc is None:
                    if opname in ('Eq', 'NotEq'):
                        c = self.is_(a, b, s)
                        rc = [(s, cnot(c) if opname == 'NotEq' else c)]
                    else:
                        rc = [(self.raise_(s, 'TypeError', (), node), None)]
                out += rc
            else:
                c = self.cond(r, s)
                out.append((s, cnot(c) if neg else c))
        return out

    def equal(self, a, b, st, fr, node=None, opname='Eq'):
        """list of (state, cond, done)"""
        if numeric(a) and numeric(b):
            x, y = uncond(a), uncond(b)
            if x is not None and y is not None and not (isinstance(x, bool) and isinstance(y, bool)):
                return [(st, cor(cand(x, y), cand(cnot(x), cnot(y))), False)]
            if isinstance(a, Cond):
                a = boolval(a)
            if isinstance(b, Cond):
                b = boolval(b)
            return [(st, eq0(sub(a, b)), False)]
        if isinstance(a, Ref) and isinstance(st.obj(a), HObj):
            o = st.obj(a)
            if isinstance(o.cls, Class):
                iv = self.intval(a, st)
                if iv is not None:
                    bv = self.intval(b, st)
                    if bv is not None:
                        return [(st, eq0(sub(iv, bv)), False)]
                rc = self.richcmp(opname, a, b, st, fr, node)
                if rc is not None:
                    return [(s, c, True) for s, c in rc]
        elif isinstance(b, Ref) and isinstance(st.obj(b), HObj) and isinstance(a, Ref) and \
                isinstance(st.obj(a), HList) and isinstance(st.obj(b).cls, Class):
            # list.__eq__ gives NotImplemented: the reflected method is tried
            rc = self.richcmp(opname, b, a, st, fr, node)
            if rc is not None:
                return [(s, c, True) for s, c in rc]
        elif isinstance(b, Ref) and isinstance(st.obj(b), HObj) and self.intval(b, st) is not None and numeric(a):
            return [(st, eq0(sub(a, self.intval(b, st))), False)]
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.obj(a), HList) and \
                isinstance(st.obj(b), HList):
            xs, ys = list(st.obj(a).items), list(st.obj(b).items)
            if not any(isinstance(x, Star) for x in xs + ys):
                if len(xs) != len(ys):
                    return [(st, False, False)]
                cur = [(st, True)]
                for x, y in zip(xs, ys):
                    nxt = []
                    for s, acc in cur:
                        if s.exc or acc is False:
                            nxt.append((s, acc))
                            continue
                        for s2, c, _ in self.equal(x, y, s, fr, node):
                            nxt.append((s2, cand(acc, c) if not s2.exc else None))
                    cur = nxt
                return [(s, c, False) for s, c in cur]
        ca, cb = self.canon(a, st), self.canon(b, st)
        if type(ca) is type(cb) or not (is_const(ca) and is_const(cb)):
            try:
                if ca == cb:
                    return [(st, True, False)]
            except Exception:
                pass
        if is_const(ca) and is_const(cb):
            return [(st, ca == cb, False)]
        if isinstance(ca, tuple) and isinstance(cb, tuple) and len(ca) == len(cb) and isinstance(a, tuple) \
           and isinstance(b, tuple) and not any(isinstance(x, Star) for x in a + b):
            cur = [(st, True)]
            for x, y in zip(a, b):
                nxt = []
                for s, acc in cur:
                    for s2, c, _ in self.equal(x, y, s, fr, node):
                        nxt.append((s2, cand(acc, c) if not s2.exc else None))
                cur = nxt
            return [(s, c, False) for s, c in cur]
        for x, y in ((ca, cb), (cb, ca)):
            if isinstance(x, Atom) and x.typ in ('bytes', 'str') and isinstance(y, (bytes, str)):
                if (x.typ == 'bytes') != isinstance(y, bytes):
                    return [(st, False, False)]
                if len(y) == 0:
                    return [(st, eq0(self.length(x)) if is_int(self.length(x)) else self.length(x) == 0, False)]
                return [(st, pred(atom('eqc', x, y)), False)]
            if isinstance(x, Atom) and is_const(y):
                if isinstance(y, int) and not isinstance(y, bool):
                    return [(st, eq0(sub(as_lin(x), y)), False)]
                if y is None:
                    return [(st, self.isnone(x, st), False)]
                return [(st, pred(atom('eqc', x, y)), False)]
        if (isinstance(ca, Atom) and numeric(cb)) or (isinstance(cb, Atom) and numeric(ca)):
            x, y = (ca, cb) if isinstance(ca, Atom) else (cb, ca)
            if x.typ in (None, 'object'):
                return [(st, eq0(sub(as_lin(x), as_num(y))), False)]
        if numeric(a) != numeric(b) and not (isinstance(ca, Atom) or isinstance(cb, Atom)):
            return [(st, False, False)]
        if isinstance(ca, tuple) and isinstance(cb, tuple) and ca and cb and ca[0] == 'def' == cb[0]:
            return [(st, False, False)]
        x, y = sorted([ca, cb], key=repr)
        return [(st, pred(atom('eq', x, y)), False)]

    def contains(self, box, x, st, fr, node=None):
        items = None
        if isinstance(box, tuple):
            items = list(box)
        elif isinstance(box, Ref):
            o = st.obj(box)
            if isinstance(o, HList):
                items = list(o.items)
            elif isinstance(o, HDict):
                k = self.hashable(x, st)
                if o.open is None and (k in o.items or is_const(k) and all(is_const(z) for z in o.items)):
                    return [(st, k in o.items)]
                if k in o.items:
                    return [(st, True)]
                items = list(o.items)
        elif isinstance(box, (str, bytes)):
            if isinstance(x, type(box)):
                return [(st, x in box)]
            if isinstance(box, bytes) and isinstance(x, int):
                return [(st, x in box)]
        if isinstance(x, bytes) and len(x) == 1 and isinstance(box, Atom) and box.typ == 'bytes':
            from .stdlib import find1
            return [(s, not (isinstance(r, int) and r < 0)) for s, r in find1(self, st, box, x, 0)]
        if items is None or any(isinstance(i, Star) for i in items):
            return [(st, pred(atom('in', self.canon(x, st), self.canon(box, st))))]
        cur = [(st, False)]
        for it in items:
            nxt = []
            for s, acc in cur:
                if acc is True or s.exc:
                    nxt.append((s, acc))
                    continue
                for s2, c, _ in self.equal(x, it, s, fr, node):
                    nxt.append((s2, cor(acc, c) if not s2.exc else None))
            cur = nxt
        return cur

    # -- subscripts
    def e_Subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for s, vs in self.evs([e.value] + parts, st, fr):
                if s.exc:
                    out.append((s, None))
                    continue
                it = iter(vs[1:])
                lo = next(it) if e.slice.lower is not None else None
                hi = next(it) if e.slice.upper is not None else None
                step = next(it) if e.slice.step is not None else None
                out += self.slice(s, vs[0], lo, hi, step, fr, e)
            return out
        for s, vs in self.evs([e.value, e.slice], st, fr):
            if s.exc:
                out.append((s, None))
            else:
                out += self.getitem(s, vs[0], vs[1], fr, e)
        return out

    def slice(self, st, v, lo, hi, step, fr, node=None):
        if isinstance(v, Ref) and isinstance(st.obj(v), HObj):
            cls = st.obj(v).cls
            if isinstance(cls, Class) and cls.lookup('__getitem__') is not None:
                s = st.fork()
                i = s.alloc(HObj('slice', {'start': lo, 'stop': hi, 'step': step}))
                return self.dispatch_call(s, v, '__getitem__', [i], {}, fr, node)
        if step is not None:
            if is_const(v) and is_const(lo) and is_const(hi) and is_const(step):
                return [(st, v[lo:hi:step])]
            raise Unsupported('slice step')
        if isinstance(v, (str, bytes, tuple)) and is_const(lo) and is_const(hi):
            return [(st, v[lo:hi])]
        if isinstance(v, Ref) and isinstance(st.obj(v), HList) and is_const(lo) and is_const(hi):
            o = st.obj(v)
            if not any(isinstance(x, Star) for x in o.items):
                s = st.fork()
                return [(s, s.alloc(HList(o.items[lo:hi], o.kind)))]
            s = st.fork()
            return [(s, s.alloc(HList([Star(('slice', self.canon(v, s), lo, hi))], o.kind)))]
        if isinstance(v, Ref) or isinstance(v, Atom) and v.typ not in ('bytes', 'str', 'bytearray') or isinstance(v, tuple):
            return [(st, atom('slice', self.canon(v, st), lo if lo is None else as_lin(lo),
                              hi if hi is None else as_lin(hi), typ=getattr(v, 'typ', None)))]
        v = self.settle(st, v)
        n = self.length(v)
        lo = 0 if lo is None else as_num(lo)
        hi = n if hi is None else as_num(hi)
        return self.slice_norm(st, v, n, lo, hi)

    def slice_norm(self, st, v, n, lo, hi):
        """Python slice semantics for bytes/str: forks until 0<=lo<=hi<=len"""
        out = []
        for s, a in self.clamp(st, lo, n):
            for s2, b in self.clamp(s, hi, n):
                emp, non = self.branch(s2, ge(a, b))
                for s3 in emp:
                    out.append((s3, b'' if self.seqtype(v) == 'bytes' else ''))
                for s3 in non:
                    if isinstance(v, Atom) and v.op == 'cat':
                        out += self.cut(s3, v, a, b)
                    else:
                        out.append((s3, self.mkslice(s3, v, a, b)))
        return out

    def cut(self, st, v, a, b):
        """v[a:b] of a concatenation, 0 <= a < b <= len(v) known"""
        t = self.seqtype(v)
        todo = [(st, 0, None, b'' if t == 'bytes' else '')]
        out = []
        for x in v.args:
            n = self.length(x)
            nxt = []
            for s, pos, started, acc in todo:
                end = add(pos, n)
                if started:
                    within = [s]
                else:
                    skip, within = self.branch(s, ge(a, end))
                    nxt += [(y, end, False, acc) for y in skip]
                for s1 in within:
                    if started:
                        lows = [(s1, 0)]
                    else:
                        p, q = self.branch(s1, ge(a, pos))
                        lows = [(y, sub(a, pos)) for y in p] + [(y, 0) for y in q]
                    for s2, lo in lows:
                        full, part = self.branch(s2, ge(b, end))
                        nxt += [(y, end, True, self.cat(acc, self.piece(y, x, lo, n), t)) for y in full]
                        out += [(y, self.cat(acc, self.piece(y, x, lo, sub(b, pos)), t)) for y in part]
            todo = nxt
        return out + [(s, acc) for s, _, _, acc in todo]

    def piece(self, st, x, lo, hi):
        if st.facts.equal_int(lo, hi):
            return b'' if self.seqtype(x) == 'bytes' else ''
        if isinstance(x, (bytes, str)) and isinstance(lo, int) and isinstance(hi, int):
            return x[lo:hi]
        return self.mkslice(st, x, lo, hi)

    def pieces(self, v, facts):
        """a byte string as [(source, from, to)], empty parts dropped, neighbours joined"""
        out = []
        for x in (v.args if isinstance(v, Atom) and v.op == 'cat' else (v,)):
            if isinstance(x, Atom) and self._exact_slice(x):
                p = (x.args[0], x.args[1], x.args[2])
            else:
                p = (x, 0, self.length(x))
            if facts.equal_int(p[1], p[2]):
                continue
            if out and out[-1][0] == p[0] and facts.equal_int(out[-1][2], p[1]):
                out[-1] = (p[0], out[-1][1], p[2])
            elif out and isinstance(p[0], bytes) and isinstance(out[-1][0], bytes) and \
                    all(isinstance(z, int) for z in out[-1][1:] + p[1:]):
                z = out[-1][0][out[-1][1]:out[-1][2]] + p[0][p[1]:p[2]]
                out[-1] = (z, 0, len(z))
            else:
                out.append(p)
        return out

    def clamp(self, st, i, n):
        """Python index clamping: negative from the end, then into 0..n"""
        out = []
        pos, ngs = self.branch(st, ge0(i))
        for s in pos:
            inn, over = self.branch(s, ge(n, i))
            out += [(x, i) for x in inn] + [(x, n) for x in over]
        for s in ngs:
            j = add(i, n)
            inn, under = self.branch(s, ge0(j))
            out += [(x, j) for x in inn] + [(x, 0) for x in under]
        return out

    def mkslice(self, st, v, a, b):
        """v[a:b] with 0 <= a < b <= len(v) known"""
        n = self.length(v)
        if st.facts.equal_int(a, 0) and st.facts.equal_int(b, n):
            return v
        if isinstance(v, Atom) and v.op == 'slice':
            # slice of a slice
            return self.mkslice(st, v.args[0], add(a, v.args[1]), add(b, v.args[1]))
        r = atom('slice', v, as_lin(a), as_lin(b), typ=self.seqtype(v) or 'bytes')
        self.__dict__.setdefault('_exact', {})[r] = True
        return r

    def getitem(self, st, v, i, fr, node=None):
        if isinstance(v, Addr):
            if i != 0:
                raise Unsupported('pointer arithmetic on a local')
            return [(st, st.obj(Ref(v.id)).fields['v'])]
        if isinstance(v, Ptr):
            return self.ptr_load(st, v, i, fr, node)
        if isinstance(i, (Cond,)):
            i = boolval(i)
        if isinstance(i, bool):
            i = int(i)
        iv = self.intval(i, st) if isinstance(i, Ref) else None
        if iv is not None:
            i = iv
        items = None
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Ref) and isinstance(st.obj(v), HList):
            items = st.obj(v).items
        elif isinstance(v, Ref) and isinstance(st.obj(v), HDict):
            o = st.obj(v)
            k = self.hashable(i, st)
            if k in o.items:
                return [(st, o.items[k])]
            if o.open is None and (o.factory is not None or is_const(k) and all(is_const(z) for z in o.items)):
                if o.factory is not None:
                    out = []
                    for s, x in self.call(o.factory, [], {}, st.fork(), fr, node):
                        if not s.exc:
                            d = s.wobj(v)
                            d.items = dict(d.items)
                            d.items[k] = x
                        out.append((s, x))
                    return out
                return [(self.raise_(st, 'KeyError', (k,), node), None)]
            miss = pred(atom('in', self.canon(i, st), self.canon(v, st)))
            t, f = self.branch(st, miss)
            return [(s, atom('item', self.canon(v, s), self.canon(i, s), typ='object')) for s in t] + \
                   [(self.raise_(s, 'KeyError', (), node), None) for s in f]
        elif isinstance(v, Ref) and isinstance(st.obj(v), HObj):
            return self.dispatch_call(st, v, '__getitem__', [i], {}, fr, node)
        if items is not None and not any(isinstance(x, Star) for x in items):
            if isinstance(i, int):
                if -len(items) <= i < len(items):
                    return [(st, items[i])]
                return [(self.raise_(st, 'IndexError', (), node), None)]
            i = as_num(i)
            if is_int(i):
                out = []
                rest = [st]
                for j, x in list(enumerate(items)) + [(j - len(items), x) for j, x in enumerate(items)]:
                    nxt = []
                    for s in rest:
                        t, f = self.branch(s, eq0(sub(i, j)))
                        out += [(s2, x) for s2 in t]
                        nxt += f
                    rest = nxt
                out += [(self.raise_(s, 'IndexError', (), node), None) for s in rest]
                return out
        if items is not None and isinstance(i, int) and i >= 0 and len(items) > i and \
                not any(isinstance(x, Star) for x in items[:i + 1]):
            return [(st, items[i])]
        if isinstance(v, (str, bytes)) and isinstance(i, int):
            try:
                return [(st, v[i])]
            except IndexError:
                return [(self.raise_(st, 'IndexError', (), node), None)]
        if isinstance(v, Atom) and v.typ == 'bytes' and is_int(i):
            n = self.length(v)
            t, f = self.branch(st, cand(ge0(i), lt(i, n)))
            out = [(s, iatom('rd', v, 'B', as_lin(i), lo=0, hi=255)) for s in t]
            for s in f:
                t2, f2 = self.branch(s, cand(lt(i, 0), ge0(add(i, n))))
                out += [(x, iatom('rd', v, 'B', as_lin(add(i, n)), lo=0, hi=255)) for x in t2]
                out += [(self.raise_(x, 'IndexError', (), node), None) for x in f2]
            return out
        c = self.canon(v, st)
        # unknown container: may raise IndexError/KeyError
        h = self.w.hooks.get('getitem')
        if h:
            r = h(self, st, fr, [v, i], {})
            if r is not None:
                return r
        i = as_num(i)
        return [(st, atom('item', c, self.canon(i, st), typ='object'))]

    # -- raw memory
    def ptr_load(self, st, p, i, fr, node):
        t = strip_ptr(p.ctype)
        w = CWIDTH.get(t)
        if w is None:
            raise Unsupported('load of type %s' % t)
        off = add(p.off, mul(i, w))
        self.event(st, fr, 'load', (p.region, off, w), node)
        return [(st, self.rd(st, p.region, CFMT[t], off))]

    def rd(self, st, region, fmt, off):
        if isinstance(region, Atom) and region.op == 'memv':
            region = region.args[0]
        if isinstance(region, Atom) and region.op == 'mem':
            return self.mem_read(st, region, fmt, off)
        region = self.settle(st, region)
        if isinstance(region, Atom) and region.op == 'pack' and len(region.args) == 2 and fmt in FMTRANGE and \
                st.facts.equal_int(off, 0) and region.args[0] == fmt.upper():
            v = region.args[1]
            n = 8 * _struct.calcsize('<' + fmt)
            return v if fmt in 'BHIQ' else self.signed(st, v, n)
        if isinstance(region, Atom) and region.op == 'pack' and len(region.args) == 2 and \
                fmt == region.args[0] == 'd' and st.facts.equal_int(off, 0):
            return region.args[1]
        if isinstance(region, Atom) and region.op == 'pack' and len(region.args) == 2 and \
                (region.args[0], fmt) in (('d', 'Q'), ('Q', 'd'), ('I', 'f')) and st.facts.equal_int(off, 0):
            x = one_atom(region.args[1])
            if isinstance(x, int) and fmt in 'fd':
                return _struct.unpack('<' + fmt, _struct.pack('<' + region.args[0], x))[0]
            if isinstance(x, Atom) and x.op == 'rd':
                if fmt == 'Q' and x.args[1] == 'd':     # the bits of a float just read
                    return self.rd(st, x.args[0], 'Q', x.args[2])
                y = x.args[0]
                if fmt in 'fd' and x.args[1] == region.args[0] and isinstance(y, Atom) and y.op == 'pack' and \
                        y.args[0] == fmt and st.facts.equal_int(x.args[2], 0):
                    return self.rd(st, y, fmt, 0)
        if isinstance(region, Atom) and region.op == 'zeros' and region.args[0] == b'\0':
            return 0
        if isinstance(region, Atom) and region.op in ('slice', 'cat') and region.typ == 'bytes':
            w = _struct.calcsize('<' + fmt)
            pos = 0
            for x in region.args if region.op == 'cat' else (region,):
                rel = sub(off, pos)
                n = self.length(x)
                if st.facts.entails(ge0(rel)) and st.facts.entails(ge(n, add(rel, w))):
                    if isinstance(x, Atom) and self._exact_slice(x):
                        return self.rd(st, x.args[0], fmt, add(rel, x.args[1]))
                    if region.op == 'cat':
                        return self.rd(st, x, fmt, rel)
                pos = add(pos, n)
        if st.facts.words and fmt not in 'fd':
            v = st.facts.known_word(region, fmt, off)
            if v is not None:
                return v
        if fmt in 'bhi' and not isinstance(region, bytes):
            # signed value in terms of the unsigned one
            n = {'b': 8, 'h': 16, 'i': 32}[fmt]
            x = self.rd(st, region, fmt.upper(), off)
            return sub(x, scale(floordiv(x, 2 ** (n - 1)), 2 ** n))
        if isinstance(region, bytes) and isinstance(off, int):
            try:
                return _struct.unpack_from('<' + fmt, region, off)[0]
            except _struct.error:
                pass
        if fmt in FMTRANGE:
            if isinstance(off, (Lin, Atom)):
                a = st.facts.known_read(region, fmt, as_lin(off))
                if a is not None:
                    return a
            return iatom('rd', region, fmt, as_lin(off), lo=FMTRANGE[fmt][0], hi=FMTRANGE[fmt][1])
        return atom('rd', region, fmt, as_lin(off), typ='float')

    def settle(self, st, v):
        """bytes created empty and then filled: their contents, if those are known"""
        if isinstance(v, Atom) and v.op == 'newbytes':
            from .stdlib import filled
            return filled(self, st, v)
        return v

    def ptr_store(self, st, p, i, v, fr, node, src=None):
        t = strip_ptr(p.ctype)
        w = CWIDTH.get(t)
        if w is None:
            # e.g. a pointer to a C local (length[0] = ...)
            raise Unsupported('store of type %s' % t)
        off = add(p.off, mul(i, w))
        out = []
        for s, x in self.coerce(st, v, t, src, fr, node):
            if not s.exc:
                self.event(s, fr, 'store', (p.region, off, w, CFMT[t], x), node)
            out.append(s)
        return out

    # -- calls
    def e_Call(self, e, st, fr):
        f = e.func
        if isinstance(f, ast.Name):
            if f.id == '__cast__':
                return self.do_cast(e, st, fr)
            if f.id == '__sizeof__':
                t = e.args[0].value
                return [(st, CWIDTH.get(t, 8))]
            if f.id == '__addr__':
                return self.do_addr(e, st, fr)
            if f.id == 'super' and f.id not in st.env:
                return self.do_super(e, st, fr)
            if f.id == 'globals' and not e.args:
                return [(st, Bound(fr.module, Builtin('globals')))]
            if f.id == 'locals':
                raise Unsupported('locals()')
        out = []
        # method calls: dispatch on the receiver
        if isinstance(f, ast.Attribute):
            recvs = self.ev(f.value, st, fr)
        else:
            recvs = None
        if recvs is not None:
            for s, r in recvs:
                if s.exc:
                    out.append((s, None))
                    continue
                for s2, args, kw in self.evargs(e, s, fr):
                    if s2.exc:
                        out.append((s2, None))
                        continue
                    if isinstance(r, Ref) and isinstance(s2.obj(r), HObj):
                        out += self.dispatch_call(s2, r, f.attr, args, kw, fr, e)
                    else:
                        for s3, fn in self.getattr(s2, r, f.attr, fr, e):
                            if s3.exc:
                                out.append((s3, None))
                            else:
                                out += self.call(fn, args, kw, s3, fr, e)
            return out
        for s, fn in self.ev(f, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            for s2, args, kw in self.evargs(e, s, fr):
                if s2.exc:
                    out.append((s2, None))
                else:
                    out += self.call(fn, args, kw, s2, fr, e)
        return out

    def evargs(self, e, st, fr):
        out = []
        for s, vs in self.evs(e.args, st, fr):
            if s.exc:
                out.append((s, [], {}))
                continue
            for s2, ks in self.evs([k.value for k in e.keywords], s, fr):
                kw = {}
                for k, v in zip(e.keywords, ks):
                    if k.arg is None:
                        if isinstance(v, Ref) and isinstance(s2.obj(v), HDict) and s2.obj(v).open is None:
                            kw.update(s2.obj(v).items)
                        else:
                            kw['**'] = v
                    else:
                        kw[k.arg] = v
                out.append((s2, vs, kw))
        return out

    def do_cast(self, e, st, fr):
        t = e.args[0].value
        src = self.ctype(e.args[1], fr)
        out = []
        for s, v in self.ev(e.args[1], st, fr):
            if s.exc:
                out.append((s, None))
            elif isinstance(v, Ptr) and self.is_ptr(t):
                out.append((s, Ptr(v.region, v.off, t)))
            elif t in CTYPES:
                if isinstance(v, Cond):
                    v = boolval(v)
                v = as_num(v)
                out.append((s, self.cwrap(v, t, force=(src in CTYPES and CTYPES[src][0] != CTYPES[t][0]
                                                       and CWIDTH[src] >= CWIDTH[t])
                                          or CTYPES[t][0] == 0)))
            else:
                out += self.coerce(s, v, t, src, fr, e)
        return out

    def do_addr(self, e, st, fr):
        a = e.args[0]
        if isinstance(a, ast.Name):
            old = st.env.get(a.id, UNDEF)
            if isinstance(old, Cell):
                return [(st, Addr(old.id))]
            s = st.fork()
            r = s.alloc(HObj('cell', {'v': old, 'type': fr.types.get(a.id)}))
            c = Cell(r.id)
            s.env = dict(s.env)
            s.env[a.id] = c
            return [(s, Addr(c.id))]
        raise Unsupported('address of expression')

    def do_super(self, e, st, fr):
        if e.args:
            out = []
            for s, vs in self.evs(e.args, st, fr):
                out.append((s, Super(vs[0], vs[1]) if not s.exc else None))
            return out
        me = st.env[fr.func.node.args.args[0].arg]
        return [(st, Super(fr.cls, me))]

    def dispatch_call(self, st, ref, name, args, kw, fr, node=None):
        """method call on a heap object, dynamic dispatch on its class"""
        o = st.obj(ref)
        cls = o.cls
        if not isinstance(cls, Class):
            out = []
            for s, fn in self.obj_getattr(st, ref, o, name, fr, node):
                if s.exc:
                    out.append((s, None))
                else:
                    out += self.call(fn, args, kw, s, fr, node)
            return out
        if name in o.fields:
            return self.call(o.fields[name], args, kw, st, fr, node)
        h = None
        for c in cls.mro():
            h = self.w.hooks.get('%s.%s' % (c.name, name))
            if h:
                break
        if h:
            r = h(self, st, fr, [ref] + args, kw)
            if r is not None:
                return r
        if o.sym is not None and not o.exact and name in self.w.open_methods:
            return self.opaque(st, fr, name, [ref] + args, kw, node)
        f = self.w.resolve(cls.lookup(name))
        if o.sym is not None and not o.exact and isinstance(f, (Func, type(None))):
            groups = {}
            for c in [cls] + cls.all_subs():
                g = c.lookup(name)
                if isinstance(g, Func):
                    groups.setdefault(g, []).append(c)
            if len(groups) > 1 or (f is None and groups):
                out = []
                for g, cs in groups.items():
                    top = cs[0]
                    names = tuple(sorted(c.name for c in cs))
                    allow = self.class_preds(st, o.sym, cs, groups)
                    if allow is None:
                        continue
                    s = st.fork()
                    s.facts = allow
                    if top is not cls:
                        s.wobj(ref).cls = top
                    out += self.call_bound(s, ref, g, args, kw, fr, node)
                return out
        if isinstance(f, Func):
            if f.kind == 'property' and (args or kw or node is not None and isinstance(node, ast.Call)):
                out = []
                for s, v in self.call_bound(st, ref, f, [], {}, fr, node):
                    if s.exc:
                        out.append((s, None))
                    else:
                        out += self.call(v, args, kw, s, fr, node)
                return out
            return self.call_bound(st, ref, f, args, kw, fr, node)
        out = []
        for s, fn in self.obj_getattr(st, ref, o, name, fr, node):
            if s.exc:
                out.append((s, None))
            else:
                out += self.call(fn, args, kw, s, fr, node)
        return out

    def class_preds(self, st, sym, classes, groups):
        """facts for 'the class of sym is one of classes' (the roots of the group)"""
        key = tuple(sorted(c.name for c in classes))
        a = atom('classin', sym, key)
        fs = st.facts
        # exclusive with the other groups
        for k, val in fs.preds.items():
            if k.op == 'classin' and k.args[0] is sym and val:
                if not (set(k.args[1]) & set(key)):
                    return None
        r = fs.assume(pred(a))
        return r[0] if r else None

    def call_bound(self, st, ref, f, args, kw, fr, node):
        if f.kind == 'staticmethod':
            return self.call(f, args, kw, st, fr, node)
        if f.kind == 'classmethod':
            o = st.obj(ref)
            k = o.fields.get('__class__')
            if k is None:
                k = o.cls if (o.exact or o.sym is None) else atom('class', o.sym, typ='type')
            return self.call(f, [k] + args, kw, st, fr, node)
        return self.call(f, [ref] + args, kw, st, fr, node)

    def opaque(self, st, fr, name, args, kw, node=None, typ='object', kind=None, pure=False):
        s = st.fork()
        cargs = tuple(self.canon(a, s) for a in args) + tuple(sorted((k, self.canon(v, s)) for k, v in kw.items()))
        if pure:
            r = atom('call', name, *cargs, typ=typ)
        else:
            n = s.count(name)
            r = atom('call', name, n, *cargs, typ=typ)
            self.event(s, fr, 'opaque', (name, cargs, r), node)
        if typ in CTYPES:
            lo, hi = CTYPES[typ]
            return [(s, as_lin(atom('call', *r.args, lo=lo, hi=hi, kind='int')))]
        return [(s, r)]

    def call(self, fn, args, kw, st, fr, node=None):
        from .stdlib import call_builtin
        if isinstance(fn, Bound):
            if isinstance(fn.func, Func):
                return self.call(fn.func, [fn.self] + args, kw, st, fr, node)
            if isinstance(fn.func, Native):
                return fn.func.fn(self, st, fr, [fn.self] + args, kw)
            if isinstance(fn.func, Builtin):
                h = self.w.hooks.get(fn.func.name)
                if h:
                    r = h(self, st, fr, [fn.self] + args, kw)
                    if r is not None:
                        return r
                return call_builtin(self, fn.func.name, [fn.self] + args, kw, st, fr, node)
            raise Unsupported('call of %r' % (fn,))
        if isinstance(fn, Func):
            h = self.w.hooks.get(fn.qualname)
            if h is None and fn.cls is not None:
                h = self.w.hooks.get('%s.%s' % (fn.cls.name, fn.name))
            if h:
                r = h(self, st, fr, args, kw)
                if r is not None:
                    return r
            return self.call_func(fn, args, kw, st, fr, node)
        if isinstance(fn, Class):
            return self.instantiate(fn, args, kw, st, fr, node)
        if isinstance(fn, Native):
            return fn.fn(self, st, fr, args, kw)
        if isinstance(fn, Builtin):
            h = self.w.hooks.get(fn.name)
            if h:
                r = h(self, st, fr, args, kw)
                if r is not None:
                    return r
            return call_builtin(self, fn.name, args, kw, st, fr, node)
        if isinstance(fn, Ext):
            h = self.w.hooks.get(fn.cname)
            if h:
                r = h(self, st, fr, args, kw)
                if r is not None:
                    return r
            return call_builtin(self, fn.cname, args, kw, st, fr, node)
        if isinstance(fn, Atom):
            return self.opaque(st, fr, 'call:' + show(fn), args, kw, node)
        if isinstance(fn, Ref):
            o = st.obj(fn)
            if isinstance(o, HObj) and isinstance(o.cls, Class) and o.cls.lookup('__call__'):
                return self.dispatch_call(st, fn, '__call__', args, kw, fr, node)
        if fn is None:
            return [(self.raise_(st, 'TypeError', ('None is not callable',), node), None)]
        raise Unsupported('call of %r' % (fn,))

    def instantiate(self, cls, args, kw, st, fr, node):
        h = self.w.hooks.get('new:' + cls.name)
        if h:
            r = h(self, st, fr, [cls] + args, kw)
            if r is not None:
                return r
        root = cls.mro()[-1]
        bases = [b for c in cls.mro() for b in c.bases if isinstance(b, Builtin)]
        if any(b.name == 'int' for b in bases):
            s = st.fork()
            r = s.alloc(HObj(cls, {'__int__': as_num(args[0])}))
            return [(s, r)]
        if any(self.is_exc_class(b.name) for b in bases):
            return [(st, Exc(cls.name, tuple(args)))]
        out = []
        for s, r in self.new_object(cls, args, kw, st, fr, node):
            if s.exc:
                out.append((s, None))
                continue
            f = cls.lookup('__init__')
            if isinstance(f, Func):
                for s2, _ in self.call(f, [r] + args, kw, s, fr, node):
                    out.append((s2, r if not s2.exc else None))
            elif isinstance(f, Native):
                for s2, _ in f.fn(self, s, fr, [r] + args, kw):
                    out.append((s2, r if not s2.exc else None))
            else:
                out.append((s, r))
        return out

    def new_object(self, cls, args, kw, st, fr, node):
        """tp_new: allocation plus __cinit__"""
        if isinstance(cls, Atom):
            s = st.fork()
            base = self.w.class_named('Struct')
            return [(s, s.alloc(HObj(base, {'__class__': cls}, None, False)))]
        s = st.fork()
        r = s.alloc(HObj(cls, {}))
        res = [(s, r)]
        for c in reversed(cls.mro()):
            f = c.dict.get('__cinit__')
            if isinstance(f, Func):
                nxt = []
                for s2, _ in res:
                    if s2.exc:
                        nxt.append((s2, None))
                        continue
                    n = len(f.node.args.args) - 1
                    a2 = args[:n] if args is not None else None
                    if a2 is None:
                        raise Unsupported('__cinit__ without arguments')
                    for s3, _ in self.call_func(f, [r] + a2, {k: v for k, v in kw.items()}, s2, fr, node):
                        nxt.append((s3, r))
                res = nxt
        return res

    def is_exc_class(self, name):
        c = getattr(builtins, name, None)
        return isinstance(c, type) and issubclass(c, BaseException)

    def call_func(self, fn, args, kw, st, fr, node=None, maxrec=1, collecting=None):
        w = self.w
        n = 0
        depth = 0
        f = fr
        while f is not None:
            depth += 1
            if f.func is fn:
                n += 1
            f = f.parent
        if n >= max(maxrec, fn.module.maxrec, self.maxrec) or depth > 60:
            h = w.hooks.get('recursion')
            if h:
                r = h(self, st, fr, [fn] + args, kw)
                if r is not None:
                    return r
            sig = fn.sig
            typ = sig.ret if sig is not None and sig.ret in CTYPES else 'object'
            return self.opaque(st, fr, fn.qualname, args, kw, node, typ=typ)
        w.visited.add(fn)
        if w.framing and fr is not None and fr.module.name.startswith('law.') and not fn.name.startswith(CTORS) and not fn.module.name.startswith('law.'):
            self.event(st, fr, 'enter', (last_id(),), node)
        nf = Frame(w, fn, fn.module, parent=fr, closure=fn.closure)
        if is_generator(fn.node):
            if collecting is None:
                if self.unroll:
                    st = st.fork()
                    return [(st, st.alloc(HGen(fn, args, kw, fr)))]
                return self.opaque(st, fr, fn.qualname, args, kw, node)
            nf.collect = collecting
        out = []
        caller_env = st.env
        argexprs = {}
        if isinstance(node, ast.Call):
            ofs = len(args) - len([a for a in node.args])
            for i, a in enumerate(node.args):
                if not isinstance(a, ast.Starred):
                    argexprs[i + ofs] = a
        for s in self.bind(fn, args, kw, st, fr, nf, node, argexprs):
            if s.exc:
                s.env = caller_env
                out.append((s, None))
                continue
            s.ret = None
            for s2, ctl in self.block(fn.node.body, s, nf):
                if ctl == 'raise' or s2.exc:
                    s2.env = caller_env
                    out.append((s2, None))
                    continue
                v = s2.ret if ctl == 'return' else None
                s2.ret = None
                s2.env = caller_env
                out += self.convert_return(fn, s2, v, nf, node)
        if len(out) > MAXSTATES:
            raise Unsupported('too many states in %s' % fn.qualname)
        return out

    def convert_return(self, fn, st, v, nf, node):
        sig = fn.sig
        if sig is None or sig.ret in (None, 'object') or not fn.module.compiled and not getattr(fn, 'header', None):
            return [(st, v)]
        t = sig.ret
        if t == 'void':
            return [(st, None)]
        if v is None and t in CTYPES:
            return [(st, 0)]
        res = self.coerce(st, v, t, 'long' if (t in CTYPES and getattr(fn, 'header', None)) else
                          self.ret_ctype(fn, nf), nf, node)
        out = []
        for s, x in res:
            if s.exc:
                out.append((s, None))
                continue
            exc = (sig.exc or '').replace(' ', '')
            if exc and not exc.startswith(('?', '*')) and t in CTYPES and is_int(x):
                try:
                    bad = int(exc, 0)
                except ValueError:
                    bad = None
                if bad is not None:
                    t1, f1 = self.branch(s, eq0(sub(x, bad)))
                    out += [(self.raise_(y, 'SystemError', (fn.qualname,), node), None) for y in t1]
                    out += [(y, x) for y in f1]
                    continue
            out.append((s, x))
        return out

    def ret_ctype(self, fn, nf):
        ts = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Return) and n.value is not None:
                ts.add(self.ctype(n.value, nf))
        if len(ts) == 1:
            return ts.pop()
        ts.discard('int')
        if len(ts) == 1:
            return ts.pop()
        return None

    def bind(self, fn, args, kw, st, fr, nf, node, argexprs):
        a = fn.node.args
        params = a.posonlyargs + a.args
        kw = dict(kw)
        env = {}
        srcs = {}
        args = list(args)
        if any(isinstance(x, Star) for x in args):
            if len(args) == 1 and a.vararg and not params:
                env[a.vararg.arg] = (args[0],)
                args = []
            elif len(args) == 1 and not a.vararg:
                base = args[0].v
                args = [atom('item', base, i, typ='object') for i in range(len(params))]
        if '**' in kw:
            star = kw.pop('**')
        for i, p in enumerate(params):
            if i < len(args):
                env[p.arg] = args[i]
                if i in argexprs and fr is not None:
                    srcs[p.arg] = self.ctype(argexprs[i], fr)
            elif p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
                if isinstance(node, ast.Call) and fr is not None:
                    for k in node.keywords:
                        if k.arg == p.arg:
                            srcs[p.arg] = self.ctype(k.value, fr)
            else:
                j = i - (len(params) - len(fn.defaults))
                if j >= 0:
                    env[p.arg] = fn.defaults[j]
                else:
                    self.standin(fn.module)
                    return [self.raise_(st, 'TypeError', ('missing argument %s of %s' % (p.arg, fn.qualname),), node)]
        if a.vararg:
            if a.vararg.arg not in env:
                env[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            self.standin(fn.module)
            return [self.raise_(st, 'TypeError', ('too many arguments for %s' % fn.qualname,), node)]
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in fn.kwdefaults:
                env[p.arg] = fn.kwdefaults[p.arg]
        s = st.fork()
        if a.kwarg:
            env[a.kwarg.arg] = s.alloc(HDict(kw))
            kw = {}
        if kw:
            self.standin(fn.module)
            return [self.raise_(st, 'TypeError', ('unexpected keyword %s' % list(kw), ), node)]
        s.env = env
        if not fn.module.compiled and not getattr(fn, 'header', None):
            return [s]
        states = [s]
        types = dict(fn.sig.args) if fn.sig is not None else {}
        for p in params:
            t = types.get(p.arg) or (fn.sig.locals.get(p.arg) if fn.sig is not None else None)
            if t is None or t == 'object':
                continue
            nxt = []
            for s in states:
                if s.exc:
                    nxt.append(s)
                    continue
                v = s.env[p.arg]
                if isinstance(v, Addr):
                    nxt.append(s)
                    continue
                for s2, x in self.coerce(s, v, t, srcs.get(p.arg), nf, node):
                    if not s2.exc:
                        s2 = s2.fork() if s2 is s else s2
                        s2.env = dict(s2.env)
                        s2.env[p.arg] = x
                    nxt.append(s2)
            states = nxt
        return states

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        cur = [(st, None)]
        for s in stmts:
            nxt = []
            for x, ctl in cur:
                if ctl is not None:
                    nxt.append((x, ctl))
                else:
                    nxt += self.ex(s, x, fr)
            cur = nxt
            if len(cur) > MAXSTATES:
                raise Unsupported('too many states')
        return cur

    def ex(self, n, st, fr):
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported('analysis budget exceeded')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        return m(n, st, fr)

    def done(self, results):
        return [(s, 'raise' if s.exc else None) for s, _ in results]

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, (ast.Yield,)):
            return self.do_yield(n.value, st, fr)
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self.done(self.ev(n.value, st, fr))

    def do_yield(self, y, st, fr):
        out = []
        for s, v in self.ev(y.value, st, fr) if y.value is not None else [(st, None)]:
            if s.exc:
                out.append((s, 'raise'))
            else:
                s = s.fork()
                if fr.collect is not None:
                    s.wobj(fr.collect).items.append(v)
                else:
                    self.event(s, fr, 'yield', (self.canon(v, s),), y)
                out.append((s, None))
        return out

    def s_Return(self, n, st, fr):
        if n.value is None:
            s = st.fork()
            s.ret = None
            return [(s, 'return')]
        out = []
        for s, v in self.ev(n.value, st, fr):
            if s.exc:
                out.append((s, 'raise'))
            else:
                s = s.fork()
                s.ret = v
                out.append((s, 'return'))
        return out

    def s_Assign(self, n, st, fr):
        src = self.ctype(n.value, fr)
        out = []
        for s, v in self.ev(n.value, st, fr):
            if s.exc:
                out.append((s, 'raise'))
                continue
            cur = [s.fork()]
            for t in n.targets:
                nxt = []
                for s2 in cur:
                    if s2.exc:
                        nxt.append(s2)
                    else:
                        nxt += self.assign(t, v, s2, fr, src)
                cur = nxt
            out += [(s2, 'raise' if s2.exc else None) for s2 in cur]
        return out

    def s_AnnAssign(self, n, st, fr):
        if isinstance(n.annotation, ast.Constant) and isinstance(n.target, ast.Name):
            t = n.annotation.value
            fr.types.setdefault(n.target.id, t)
        if n.value is None:
            if isinstance(n.target, ast.Name) and fr.func is None:
                fr.module.types[n.target.id] = n.annotation.value if isinstance(n.annotation, ast.Constant) else None
                return [(st, None)]
            t = fr.types.get(n.target.id, '') if isinstance(n.target, ast.Name) else ''
            if '[' in t and isinstance(n.target, ast.Name):
                # C array local
                s = st.fork()
                s.env = dict(s.env)
                s.env[n.target.id] = self.carray(s, t, n, fr)
                return [(s, None)]
            return [(st, None)]
        src = self.ctype(n.value, fr)
        out = []
        for s, v in self.ev(n.value, st, fr):
            if s.exc:
                out.append((s, 'raise'))
            else:
                for s2 in self.assign(n.target, v, s.fork(), fr, src):
                    out.append((s2, 'raise' if s2.exc else None))
        return out

    def carray(self, st, t, node, fr):
        return st.alloc(HObj('carray', {'type': t}))

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(self._load(n.target), n)
        e = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
        # in-place list extension mutates the object
        out = []
        if isinstance(n.op, ast.Add):
            res = []
            for s, vs in self.evs([load, n.value], st, fr):
                if s.exc:
                    res.append((s, None))
                    continue
                a, b = vs
                if isinstance(a, Ref) and isinstance(s.obj(a), HList) and s.obj(a).kind == 'list':
                    s = s.fork()
                    o = s.wobj(a)
                    o.items = o.items + self.unstar(s, b)
                    self.event(s, fr, 'mutate', (a, '+='), n)
                    res.append((s, a))
                elif isinstance(a, Atom) and a.typ == 'list':
                    self.event(s, fr, 'mutate', (a, '+='), n)
                    res.append((s, a))
                elif isinstance(a, Ref) and isinstance(s.obj(a), HObj) and s.obj(a).cls == 'bytearray':
                    from .stdlib import bytearray_extend
                    res += bytearray_extend(self, s, a, b, fr, n)
                else:
                    res += self.binop(n.op, a, b, s, fr, e)
        else:
            res = self.ev(e, st, fr)
        src = self.ctype(e, fr)
        for s, v in res:
            if s.exc:
                out.append((s, 'raise'))
            else:
                for s2 in self.assign(n.target, v, s.fork(), fr, src):
                    out.append((s2, 'raise' if s2.exc else None))
        return out

    def _load(self, t):
        import copy
        t2 = copy.copy(t)
        t2.ctx = ast.Load()
        return t2

    def assign(self, t, v, st, fr, src=None):
        """st may be modified; returns list of states"""
        if isinstance(t, ast.Name):
            ty = fr.types.get(t.id) if fr.compiled else None
            if ty is None and fr.func is None and fr.compiled:
                ty = fr.module.types.get(t.id)
            res = self.coerce(st, v, ty, src, fr, t) if ty else [(st, v)]
            out = []
            for s, x in res:
                if s.exc:
                    out.append(s)
                    continue
                if fr.func is None and s.env is fr.module.globals or t.id in fr.globalsdecl:
                    fr.module.globals[t.id] = x
                    if fr.func is not None:
                        self.event(s, fr, 'setattr', (fr.module, t.id, x), t)
                elif isinstance(s.env.get(t.id), Cell):
                    s.wobj(Ref(s.env[t.id].id)).fields['v'] = x
                else:
                    s.env = dict(s.env)
                    s.env[t.id] = x
                out.append(s)
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                if s.exc:
                    out.append(s)
                else:
                    out += self.setattr(s.fork(), o, t.attr, v, fr, t, src)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if isinstance(v, tuple):
                items = list(v)
            elif isinstance(v, Ref) and isinstance(st.obj(v), HList):
                items = list(st.obj(v).items)
            elif isinstance(v, Atom):
                items = [atom('item', v, i, typ='object') for i in range(len(t.elts))]
                if v.op == 'call' and v.args[0] in self.w.__dict__.get('tuple_types', {}):
                    ts = self.w.tuple_types[v.args[0]]
                    items = [self.symval(st, ('item', v, i), ts[i]) for i in range(len(t.elts))]
            if items is None:
                raise Unsupported('unpacking %r' % (v,))
            if len(items) != len(t.elts) or any(isinstance(i, Star) for i in items):
                if any(isinstance(i, Star) for i in items):
                    items = [atom('item', self.canon(v, st), i, typ='object') for i in range(len(t.elts))]
                else:
                    return [self.raise_(st, 'ValueError', ('unpack',), t)]
            cur = [st]
            for x, it in zip(t.elts, items):
                nxt = []
                for s in cur:
                    if s.exc:
                        nxt.append(s)
                    else:
                        nxt += self.assign(x, it, s, fr, None)
                cur = nxt
            return cur
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                parts = [x for x in (t.slice.lower, t.slice.upper) if x is not None]
                for s, vs in self.evs([t.value] + parts, st, fr):
                    if s.exc:
                        out.append(s)
                        continue
                    it = iter(vs[1:])
                    lo = next(it) if t.slice.lower is not None else None
                    hi = next(it) if t.slice.upper is not None else None
                    out += self.setslice(s.fork(), vs[0], lo, hi, v, fr, t)
                return out
            for s, vs in self.evs([t.value, t.slice], st, fr):
                if s.exc:
                    out.append(s)
                else:
                    out += self.setitem(s.fork(), vs[0], vs[1], v, fr, t, src)
            return out
        raise Unsupported('assignment target %s' % type(t).__name__)

    def setslice(self, st, o, lo, hi, v, fr, node):
        from .stdlib import bytearray_setslice
        if isinstance(o, Ref) and isinstance(st.obj(o), HObj) and st.obj(o).cls == 'bytearray':
            return bytearray_setslice(self, st, o, lo, hi, v, fr, node)
        self.event(st, fr, 'mutate', (self.canon(o, st), 'setslice'), node)
        return [st]

    def setitem(self, st, o, i, v, fr, node, src=None):
        if isinstance(o, Addr):
            ref = Ref(o.id)
            out = []
            for s, x in self.coerce(st, v, st.obj(ref).fields['type'], src, fr, node):
                if not s.exc:
                    s.wobj(ref).fields['v'] = x
                out.append(s)
            return out
        if isinstance(o, Ptr):
            return self.ptr_store(st, o, i, v, fr, node, src)
        if isinstance(o, Ref):
            ob = st.obj(o)
            if isinstance(ob, HObj) and ob.cls == 'carray':
                w = st.wobj(o)
                if isinstance(i, int):
                    w.fields[i] = v
                else:
                    w.fields[('sym', i)] = v
                self.event(st, fr, 'arraystore', (ob.fields['type'], i, self.canon(v, st)), node)
                return [st]
            if isinstance(ob, HList) and isinstance(i, int) and -len(ob.items) <= i < len(ob.items) and \
               not any(isinstance(x, Star) for x in ob.items):
                w = st.wobj(o)
                w.items = list(w.items)
                w.items[i] = v
                self.event(st, fr, 'mutate', (o, 'setitem'), node)
                return [st]
            if isinstance(ob, HDict):
                w = st.wobj(o)
                w.items = dict(w.items)
                w.items[self.hashable(i, st)] = v
                self.event(st, fr, 'setitem', (self.canon(o, st) if ob.open is not None else o, self.canon(i, st), self.canon(v, st)), node)
                return [st]
            if isinstance(ob, HObj):
                return [s for s, _ in self.dispatch_call(st, o, '__setitem__', [i, v], {}, fr, node)]
        if isinstance(o, Bound) and isinstance(o.func, Builtin) and o.func.name == 'globals':
            o.self.globals[i] = v
            if o.self.compiled and isinstance(v, Func):
                o.self.pyhas.add(i)
            return [st]
        self.event(st, fr, 'setitem', (self.canon(o, st), self.canon(i, st), self.canon(v, st)), node)
        return [st]

    def s_If(self, n, st, fr):
        out = []
        for s, v in self.ev(n.test, st, fr):
            if s.exc:
                out.append((s, 'raise'))
                continue
            for s2, b in self.truth(s, v, fr):
                if s2.exc:
                    out.append((s2, 'raise'))
                else:
                    out += self.block(n.body if b else n.orelse, s2, fr)
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, v in self.ev(n.test, st, fr):
            if s.exc:
                out.append((s, 'raise'))
                continue
            for s2, b in self.truth(s, v, fr):
                if s2.exc:
                    out.append((s2, 'raise'))
                elif b:
                    out.append((s2, None))
                else:
                    out.append((self.raise_(s2, 'AssertionError', (), n), 'raise'))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            s = st.fork()
            s.exc = st.env.get('__handling__') or Exc('Exception', (), n)
            return [(s, 'raise')]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if s.exc:
                out.append((s, 'raise'))
                continue
            s = s.fork()
            if isinstance(v, Exc):
                s.exc = Exc(v.cls, v.args, n)
            elif isinstance(v, Builtin):
                s.exc = Exc(v.name, (), n)
            elif isinstance(v, Class):
                s.exc = Exc(v.name, (), n)
            elif isinstance(v, Atom) and v.op == 'call':
                s.exc = Exc('Exception', (v,), n)
            else:
                s.exc = Exc('Exception', (self.canon(v, s),), n)
            out.append((s, 'raise'))
        return out

    EXC_EXTRA = {'struct.error': 'Exception', 'error': 'Exception'}

    def exc_matches(self, exc, v):
        """handler value v against a raised exception"""
        if isinstance(v, tuple):
            return any(self.exc_matches(exc, x) for x in v)
        hn = v.name if isinstance(v, (Builtin, Class)) else None
        en = exc.name
        if hn is None:
            return True
        if hn == en:
            return True
        h, e = getattr(builtins, hn, None), getattr(builtins, en, None)
        if e is None:
            e = getattr(builtins, self.EXC_EXTRA.get(en, 'Exception'), Exception)
        if isinstance(h, type) and isinstance(e, type):
            return issubclass(e, h)
        return False

    def s_Try(self, n, st, fr):
        out = []
        res = []
        st0 = st.fork()
        st0.tags = st0.tags
        for s, ctl in self.block(n.body, st0, fr):
            if ctl == 'raise' or s.exc:
                exc = s.exc
                handled = False
                for h in n.handlers:
                    if h.type is None:
                        match = True
                    else:
                        s1 = s.fork()
                        s1.exc = None
                        hv = self.ev(h.type, s1, fr)
                        match = self.exc_matches(exc, hv[0][1])
                    if match:
                        s1 = s.fork()
                        s1.exc = None
                        s1.env = dict(s1.env) if not (fr.func is None and s1.env is fr.module.globals) else s1.env
                        if h.name:
                            s1.env[h.name] = exc
                        s1.events.append(Event('except', (exc.name,), None, s1.facts, fr.func))
                        for s2, c2 in self.block(h.body, s1, fr):
                            res.append((s2, c2))
                        handled = True
                        break
                if not handled:
                    res.append((s, 'raise'))
            elif ctl is None and n.orelse:
                res += self.block(n.orelse, s, fr)
            else:
                res.append((s, ctl))
        if not n.finalbody:
            return res
        for s, ctl in res:
            exc, ret = s.exc, s.ret
            s = s.fork()
            s.exc = None
            for s2, c2 in self.block(n.finalbody, s, fr):
                if c2 is not None or s2.exc:
                    out.append((s2, c2 or 'raise'))
                else:
                    s2.exc, s2.ret = exc, ret
                    out.append((s2, ctl))
        return out

    def s_With(self, n, st, fr):
        cur = [(st, None)]
        mgrs = []
        for item in n.items:
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(item.context_expr, s, fr):
                    if s2.exc:
                        nxt.append((s2, 'raise'))
                        continue
                    for s3, x in self.enter(s2, v, fr, n):
                        if item.optional_vars is not None:
                            for s4 in self.assign(item.optional_vars, x, s3.fork(), fr):
                                nxt.append((s4, v))
                        else:
                            nxt.append((s3, v))
            cur = nxt
        out = []
        for s, v in cur:
            if s.exc:
                out.append((s, 'raise'))
                continue
            for s2, ctl in self.block(n.body, s, fr):
                out += self.leave(s2, ctl, v, fr, n)
        return out

    def enter(self, st, v, fr, node):
        if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and \
                st.obj(v).cls.lookup('__enter__'):
            return self.dispatch_call(st, v, '__enter__', [], {}, fr, node)
        return [(st, v if not isinstance(v, Builtin) else v)]

    def leave(self, st, ctl, v, fr, node):
        if isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and \
                st.obj(v).cls.lookup('__exit__'):
            exc, ret = st.exc, st.ret
            s = st.fork()
            s.exc = None
            out = []
            for s2, _ in self.dispatch_call(s, v, '__exit__', [None, None, None], {}, fr, node):
                s2.exc, s2.ret = exc, ret
                out.append((s2, ctl))
            return out
        return [(st, ctl)]

    def s_Break(self, n, st, fr):
        return [(st, 'break')]

    def s_Continue(self, n, st, fr):
        return [(st, 'continue')]

    def s_Global(self, n, st, fr):
        fr.globalsdecl |= set(n.names)
        return [(st, None)]

    def s_Nonlocal(self, n, st, fr):
        raise Unsupported('nonlocal')

    def s_Delete(self, n, st, fr):
        out = [st.fork()]
        for t in n.targets:
            nxt = []
            for s in out:
                if isinstance(t, ast.Name):
                    s.env = dict(s.env)
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.evs([t.value, t.slice], s, fr):
                        if not s2.exc:
                            s2 = s2.fork()
                            if isinstance(vs[0], Ref) and isinstance(s2.obj(vs[0]), HDict):
                                w = s2.wobj(vs[0])
                                w.items = dict(w.items)
                                w.items.pop(self.hashable(vs[1], s2), None)
                            self.event(s2, fr, 'delitem', (self.canon(vs[0], s2), self.canon(vs[1], s2)), n)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            out = nxt
        return [(s, 'raise' if s.exc else None) for s in out]

    # -- loops: see loops.py
    def s_While(self, n, st, fr):
        from .loops import while_loop
        return while_loop(self, n, st, fr)

    def s_For(self, n, st, fr):
        from .loops import for_loop
        return for_loop(self, n, st, fr)

    def _compr(self, e, st, fr, kind):
        from .loops import comprehension
        return comprehension(self, e, st, fr, kind)

    def e_ListComp(self, e, st, fr):
        return self._compr(e, st, fr, 'list')

    def e_GeneratorExp(self, e, st, fr):
        return self._compr(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self._compr(e, st, fr, 'set')

    def e_DictComp(self, e, st, fr):
        return self._compr(e, st, fr, 'dict')

    # -- definitions
    def s_FunctionDef(self, n, st, fr):
        out = []
        f = Func(n, fr.module, cls=None, closure=self.capture(st, fr) if fr.func is not None else None)
        for s, ds in self.evs(list(n.args.defaults), st, fr):
            if s.exc:
                out.append((s, 'raise'))
                continue
            f2 = Func(n, fr.module, closure=f.closure, defaults=list(ds))
            for kwn, kd in zip(n.args.kwonlyargs, n.args.kw_defaults):
                if kd is not None:
                    r = self.ev(kd, s, fr)
                    f2.kwdefaults[kwn.arg] = r[0][1]
            cur = [(s, f2)]
            for d in reversed(n.decorator_list):
                nm = ast.unparse(d)
                nxt = []
                for s2, v in cur:
                    if nm == '__property__':        # property x: ... of Cython
                        v.kind = 'property'
                        nxt.append((s2, v))
                    elif nm in ('staticmethod', 'classmethod', 'property') and isinstance(v, Func):
                        h = s2.env.get(nm) if getattr(fr, 'in_class', False) else None
                        if isinstance(h, Func) and h.kind == 'property':
                            # the name was taken by an attribute of the class
                            nxt.append((self.raise_(s2, 'TypeError', ('decorator', nm), n), None))
                            continue
                        v.kind = nm
                        nxt.append((s2, v))
                    elif nm.startswith('cython.') or nm.endswith('.setter'):
                        nxt.append((s2, v))
                    elif nm.startswith(('docopt', 'pytest')):
                        nxt.append((s2, v))
                    else:
                        for s3, dv in self.ev(d, s2, fr):
                            if s3.exc:
                                nxt.append((s3, None))
                            elif isinstance(dv, Builtin) and isinstance(v, Func) and \
                                    dv.name in ('staticmethod', 'classmethod', 'property'):
                                v.kind = dv.name
                                nxt.append((s3, v))
                            else:
                                nxt += self.call(dv, [v], {}, s3, fr, n)
                cur = nxt
            for s2, v in cur:
                if s2.exc:
                    out.append((s2, 'raise'))
                    continue
                out += [(x, None) for x in self.assign(ast.Name(n.name, ast.Store()), v, s2, fr)]
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        w = self.w
        bases = []
        for s, bs in self.evs(n.bases, st, fr):
            bases = [w.resolve(b) for b in bs]
            st = s
        cdecl = None
        if fr.module.compiled:
            cdecl = fr.module.sm.decls.classes.get(n.name)
        h = w.hooks.get('classdef')
        dct = {}
        k = Class(n.name, fr.module, bases, dct, cdecl, fr.module.compiled)
        s = st.fork()
        outer_env = st.env
        s.env = {}
        cfr = Frame(w, None, fr.module, parent=fr, closure=dict(fr.closure or {}))
        if outer_env is not fr.module.globals:
            cfr.closure.update(outer_env)
        cfr.cls = k
        cfr.in_class = True
        out = []
        for s2, ctl in self.block(n.body, s, cfr):
            if s2.exc:
                s2.env = outer_env
                out.append((s2, 'raise'))
                continue
            k.dict.update(s2.env)
            for v in k.dict.values():
                if isinstance(v, Func) and v.cls is None:
                    v.cls = k
            s2.env = outer_env
            cur = [(s2, k)]
            for d in reversed(n.decorator_list):
                nm = ast.unparse(d)
                if nm.startswith('cython.'):
                    continue
                nxt = []
                for s3, v in cur:
                    for s4, dv in self.ev(d, s3, fr):
                        nxt += self.call(dv, [v], {}, s4, fr, n)
                cur = nxt
            for s3, v in cur:
                if s3.exc:
                    out.append((s3, 'raise'))
                else:
                    out += [(x, None) for x in self.assign(ast.Name(n.name, ast.Store()), v, s3, fr)]
            break
        return out

    def s_Import(self, n, st, fr):
        s = st
        for al in n.names:
            imports = getattr(fr.module, 'imports', None) or {}
            m = imports.get(al.name)
            if m is None:
                m = self.w.load(al.name) if al.name.startswith('capnpy') else None
            if al.asname:
                v = m or Builtin(al.name)
            else:
                top = al.name.split('.')[0]
                v = (self.w.load(top) if m is not None else None) or Builtin(top)
            s = self.assign(ast.Name(al.asname or al.name.split('.')[0], ast.Store()), v, s, fr)[0]
        return [(s, None)]

    def s_ImportFrom(self, n, st, fr):
        from .world import Lazy
        if n.module == '__future__':
            return [(st, None)]
        s = st
        for al in n.names:
            name = al.asname or al.name
            v = None
            mod = n.module
            if name == '__compiler' and getattr(fr.module, 'loader', None) is not None:
                v = fr.module.loader
            elif mod and fr.module.name.startswith('law.') and is_law(mod):
                from .law import load_laws
                v = load_laws(self.w, mod).globals[al.name]
            elif mod and mod.startswith('capnpy'):
                p = self.w.path_of(mod)
                if p is None:
                    e = self.raise_(s, 'ImportError', (mod,), n)
                    return [(e, 'raise')]
                m = self.w.modules.get(mod)
                if m is None:
                    m = self.w.load(mod)
                v = m.globals.get(al.name, m.c.get(al.name)) if m is not None else None
                if v is None and al.name not in m.globals:
                    if self.w.path_of(mod + '.' + al.name):
                        v = self.w.load(mod + '.' + al.name)
                    else:
                        v = Lazy(mod, al.name)
            else:
                v = CONST_IMPORTS.get((mod, al.name), None)
                if callable(v):
                    v = v(self.w)
                if v is None:
                    v = Builtin('%s.%s' % (mod, al.name))
            s = self.assign(ast.Name(name, ast.Store()), v, s, fr)[0]
        return [(s, None)]

    def run_toplevel(self, body, st, fr):
        """module body, statement by statement; single state"""
        for n in body:
            try:
                self.silent += 1
                old = dict(st.env)
                res = self.ex(n, st, fr)
            except Unsupported as e:
                # unknown initialisation code: bind the assigned names to unknowns
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        fr.module.globals.setdefault(x.id, atom('global', fr.module.name, x.id, typ='object'))
                fr.module.__dict__.setdefault('top_unsupported', []).append((getattr(n, 'lineno', 0), str(e)))
                continue
            finally:
                self.silent -= 1
            live = [s for s, c in res if not s.exc]
            if not live:
                fr.module.__dict__.setdefault('top_raised', []).append(
                    (getattr(n, 'lineno', 0), repr(res[0][0].exc) if res else 'none'))
                continue
            if len(res) > 1 and getattr(fr.module, 'generated', False):
                fr.module.__dict__.setdefault('top_unsupported', []).append(
                    (getattr(n, 'lineno', 0), 'loading depends on unknown values'))
            s = live[0]
            if s.env is not fr.module.globals:
                fr.module.globals.update(s.env)
                s.env = fr.module.globals
            st = s
            st.exc = None
            # cdef functions are visible at C level immediately
            if isinstance(n, ast.FunctionDef) and getattr(n, '_sig', None) is not None and \
                    n._sig.kind in ('cdef', 'cpdef'):
                v = fr.module.globals.get(n.name)
                if isinstance(v, Func):
                    fr.module.c[n.name] = v
            MODULE_HEAP.update(st.heap)
            st.heap = {}
        return st


EXTRA_BUILTINS = {'__carray__', 'unicode', 'long', 'xrange', 'basestring', 'cython', 'NULL'}

CONST_IMPORTS = {
    ('six', 'PY3'): True,
    ('six', 'PY2'): False,
    ('six', 'binary_type'): Builtin('bytes'),
    ('six', 'text_type'): Builtin('str'),
    ('six.moves', 'range'): Builtin('range'),
    ('pypytools', 'IS_PYPY'): lambda w: w.kind == 'pure',
    ('pypytools.codegen', 'Code'): lambda w: w.codemodel.Code,
}


_gen = {}


def is_generator(node):
    r = _gen.get(id(node))
    if r is None or r[0] is not node:
        found = [False]

        def visit(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    found[0] = True
                visit(c)
        visit(node)
        r = (node, found[0])
        _gen[id(node)] = r
    return r[1]
