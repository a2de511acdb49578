"""Summaries of functions: all outcomes of a call on symbolic arguments."""
from .frontend import Unsupported, Sig
from .terms import Atom, Lin, atom, iatom, CTYPES, as_lin, show
from .facts import Facts
from .values import Ref, HObj, Ptr, Func, State, Class, Exc, Event
from .interp import Frame
from .world import World


class Outcome(object):
    """one path class: facts, and a returned value or an exception"""
    def __init__(self, state, value):
        self.state, self.value = state, value
        self.facts = state.facts
        self.exc = state.exc
        self.events = state.events

    def __repr__(self):
        return '<%s if %r>' % (self.exc if self.exc else self.value, self.facts)


def std_hooks(w):
    def cbuf(I, st, ref):
        b = I.getattr(st, ref, 'buf', None)[0][1]
        return Ptr(I.canon(b, st), 0, 'const char*')
    w.field_hooks[('BaseSegment', 'cbuf')] = cbuf

    def bcbuf(I, st, ref):
        b = I.getattr(st, ref, 'buf', None)[0][1]
        o = st.obj(b)
        return Ptr(atom('memv', o.sym, o.fields['ver'], typ='mem'), 0, 'char*')
    w.field_hooks[('SegmentBuilder', 'cbuf')] = bcbuf

    def bbuf(I, st, ref):
        o = st.obj(ref)
        if o.sym is None:
            return NotImplemented
        n = I.symval(st, ('attr', o.sym, 'length' if w.kind == 'compiled' else 'end'), 'Py_ssize_t')
        r = st.alloc(HObj('bytearray', {'len': n, 'ver': 0}, atom('mem', 'builder', o.sym, typ='mem')))
        return r
    w.field_hooks[('SegmentBuilder', 'buf')] = bbuf

    def buf(I, st, ref):
        o = st.obj(ref)
        if o.sym is None:
            return NotImplemented
        return atom('attr', o.sym, 'buf', typ='bytes')
    w.field_hooks[('BaseSegment', 'buf')] = buf
    return w


def make_world(kind, root='/repo'):
    from .gen import install
    return install(std_hooks(World(kind, root)))


def sym_args(w, fn, st, names=None, types=None):
    """symbolic arguments according to the declared signature"""
    sig = w.pxd_sig(fn) or fn.sig
    types = dict(types or {})
    if sig is not None:
        for n, t in sig.args:
            types.setdefault(n, t)
        for n, t in sig.locals.items():
            types.setdefault(n, t)
    out = []
    params = fn.node.args.posonlyargs + fn.node.args.args
    for i, p in enumerate(params):
        if names and p.arg in names:
            out.append(names[p.arg])
            continue
        if i == 0 and fn.cls is not None and fn.kind is None:
            out.append(w.interp.symobj(st, fn.cls, atom('sym', 'self')))
            continue
        t = types.get(p.arg, 'object')
        out.append(w.interp.symval(st, ('sym', p.arg, t), t, fn.module))
    return out


def start(w):
    st = w.base.fork()
    st.env = {}
    st.events = []
    return st


def run(w, fn, args, st=None, kw=None, budget=200000, raw=False):
    """call fn(args) -> list of Outcome"""
    I = w.interp
    I.budget = budget
    st = st or start(w)
    fr = Frame(w, None, fn.module)
    fr.compiled = False
    res = I.call(fn, args, kw or {}, st, fr, None) if not raw else I.call_func(fn, args, kw or {}, st, fr, None)
    I.budget = None
    return [Outcome(s, v) for s, v in res]


def summary(w, fn, names=None, types=None, **kw):
    st = start(w)
    args = sym_args(w, fn, st, names, types)
    return run(w, fn, args, st, **kw)
