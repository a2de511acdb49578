"""Non-integer abstract values, heap objects and states."""
import re
from .terms import Atom, Lin, atom, show, as_lin
from .facts import Facts


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(('ref', self.id))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __repr__(self):
        return '&%d' % self.id


class HObj(object):
    """instance of a (known) class; `sym` is set for objects that existed before"""
    __slots__ = ('cls', 'fields', 'sym', 'exact')

    def __init__(self, cls, fields=None, sym=None, exact=True):
        self.cls, self.fields, self.sym, self.exact = cls, dict(fields or {}), sym, exact

    def copy(self):
        return HObj(self.cls, self.fields, self.sym, self.exact)


class HList(object):
    """python list; items is a list of values, or of ('star', mapvalue) pieces"""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items, self.kind = list(items), kind

    def copy(self):
        return HList(self.items, self.kind)


class HDict(object):
    __slots__ = ('items', 'open', 'factory')

    def __init__(self, items=None, open=None, factory=None):
        self.items, self.open, self.factory = dict(items or {}), open, factory

    def copy(self):
        return HDict(self.items, self.open, self.factory)


class HGen(object):
    """a generator that has not been started (or, `done`, has been used up)"""
    __slots__ = ('fn', 'args', 'kw', 'fr', 'done')

    def __init__(self, fn, args, kw, fr, done=False):
        self.fn, self.args, self.kw, self.fr, self.done = fn, args, kw, fr, done

    def copy(self):
        return HGen(self.fn, self.args, self.kw, self.fr, self.done)


class Ptr(object):
    """raw pointer: memory region (named by a value) + byte offset"""
    __slots__ = ('region', 'off', 'ctype')

    def __init__(self, region, off, ctype):
        self.region, self.off, self.ctype = region, off, ctype

    def __hash__(self):
        return hash((self.region, self.off))

    def __eq__(self, o):
        return isinstance(o, Ptr) and (o.region, o.off) == (self.region, self.off)

    def __repr__(self):
        return 'Ptr(%s + %s)' % (show(self.region), show(self.off))


class Func(object):
    def __init__(self, node, module, cls=None, closure=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.cls = node, module, cls
        self.closure = closure
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.sig = getattr(node, '_sig', None)
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = None           # staticmethod | classmethod | property

    @property
    def qualname(self):
        return '%s.%s%s' % (self.module.name, (self.cls.name + '.') if self.cls else '', self.name)

    @property
    def where(self):
        f = getattr(self.node, '_file', None) or self.module.path
        return '%s:%d' % (f, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return '<func %s>' % self.qualname


class Bound(object):
    __slots__ = ('self', 'func')

    def __init__(self, s, f):
        self.self, self.func = s, f

    def __eq__(self, o):
        return isinstance(o, Bound) and o.self == self.self and o.func is self.func

    def __hash__(self):
        return hash((self.self, id(self.func)))

    def __repr__(self):
        return '<bound %s of %r>' % (self.func, self.self)


CLASHES = set()


class Class(object):
    def __init__(self, name, module, bases, dct, cdecl=None, compiled=False):
        self.name, self.module, self.bases, self.dict = name, module, bases, dct
        self.cdecl, self.compiled = cdecl, compiled
        self.subclasses = []
        foreign = module is not None and module.name.startswith(('law.', 'generated'))
        for b in bases:
            # the analysed program stays closed: classes of laws and generated ones are
            # not candidates for the dynamic class of its unknown objects
            if isinstance(b, Class) and (not foreign or b.module is module):
                b.subclasses.append(self)
        from .facts import MRO
        m = frozenset(c.name for c in self.mro())
        if MRO.setdefault(name, m) != m:
            MRO[name] = frozenset()      # ambiguous name: nothing is known
            CLASHES.add(name)

    @property
    def qualname(self):
        return '%s.%s' % (self.module.name if self.module else 'builtins', self.name)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.dict:
                return c.dict[name]
        return None

    def attr_type(self, name):
        for c in self.mro():
            if c.cdecl is not None and name in c.cdecl.attrs:
                return c.cdecl.attrs[name]
        return None

    def is_sub(self, o):
        return o in self.mro()

    def all_subs(self):
        out = []
        for s in self.subclasses:
            out.append(s)
            out += s.all_subs()
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class Builtin(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<builtin %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Ext(object):
    """external C function / macro declared in a pxd"""
    def __init__(self, name, cname, sig, header):
        self.name, self.cname, self.sig, self.header = name, cname, sig, header

    def __repr__(self):
        return '<extern %s>' % self.cname


class Exc(object):
    """an exception in flight"""
    __slots__ = ('cls', 'args', 'where')

    def __init__(self, cls, args=(), where=None):
        self.cls, self.args, self.where = cls, args, where

    def __repr__(self):
        return '%s' % (self.cls if isinstance(self.cls, str) else getattr(self.cls, 'name', self.cls))

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


class Event(object):
    __slots__ = ('kind', 'data', 'where', 'facts', 'func', 'size', 'chain', 'stale')

    def __init__(self, kind, data, where=None, facts=None, func=None):
        self.kind, self.data, self.where, self.facts, self.func = kind, data, where, facts, func
        self.size = None
        self.stale = False

    def __repr__(self):
        return '%s%r' % (self.kind, self.data)


MODULE_HEAP = {}        # objects created by module initialisation
_ids = [0]


def last_id():
    """of the objects that exist"""
    return _ids[0]


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'events', 'exc', 'ret', 'counts', 'tags')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = Facts()
        self.events = []
        self.exc = None
        self.ret = None
        self.counts = {}
        self.tags = frozenset()

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: v for k, v in self.heap.items()}
        s.facts = self.facts
        s.events = list(self.events)
        s.exc, s.ret = self.exc, self.ret
        s.counts = dict(self.counts)
        s.tags = self.tags
        return s

    def alloc(self, obj):
        _ids[0] += 1
        r = Ref(_ids[0])
        self.heap[r.id] = obj
        return r

    def obj(self, ref):
        o = self.heap.get(ref.id)
        return o if o is not None else MODULE_HEAP[ref.id]

    def wobj(self, ref):
        """heap object for writing (copy on write)"""
        o = self.obj(ref).copy()
        self.heap[ref.id] = o
        return o

    def count(self, key):
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        return n


def token(v):
    """symbolic value inside a string"""
    if isinstance(v, str):
        return v
    t = _tok.get(v)
    if t is None:
        t = '_PH%d_' % len(_tok)
        _tok[v] = t
        _rtok[t] = v
    return t


_tok = {}
_rtok = {}


def untoken(name):
    return _rtok.get(name)


def textparts(s):
    """the text as a tuple of literals (str) and of the values embedded in it"""
    out = []
    for i, x in enumerate(_TOKEN.split(s)):
        if i % 2:
            v = _rtok.get(x)
            out.append(('v', v) if v is not None else x)
        else:
            out.append(x)
    r = []
    for x in out:
        if isinstance(x, tuple):
            r.append(x)
        elif r and isinstance(r[-1], str):
            r[-1] += x
        elif x:
            r.append(x)
    return tuple(r)


def has_token(s):
    return isinstance(s, str) and '_PH' in s and any(not isinstance(x, str) for x in textparts(s))


_TOKEN = re.compile(r'(_PH[0-9]+_)')
