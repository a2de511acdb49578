"""Reading the code generator: a model of pypytools.codegen (the text builder the
compiler writes through), the `*_extended.py` mechanism, and `compile_source`,
which turns emitted source text back into an analysed module.

Symbolic integers inside emitted text are placeholder identifiers (values.token);
parsing the text and looking those names up gives the symbolic values back, so
one emission stands for every value of e.g. a field offset."""
import ast
import os
import string

from . import frontend
from .frontend import Unsupported
from .terms import Lin, Atom, atom, add
from .facts import Cond
from .values import Ref, HObj, HList, HDict, Func, Bound, Class, Builtin, Exc, State, MODULE_HEAP, token
from .interp import Native, Frame

PRIV = ('@code',)


def fmt_value(I, st, fr, v, conv, spec):
    if isinstance(v, int) and not isinstance(v, bool) and spec:
        return format(v, spec)
    if spec and not isinstance(v, (str, float)):
        if isinstance(v, (Lin, Atom)) or isinstance(v, Cond):
            return I.to_str(v, st)          # any rendering of the number
        raise Unsupported('format spec %r' % spec)
    s = I.to_str(v, st, 'r' if conv == 'r' else 's')
    return format(s, spec) if spec else s


def format_str(I, st, fr, fmt, args, kw):
    """str.format with concrete template; raises KeyError like the real one"""
    out = []
    auto = 0
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError:
        return None, Exc('ValueError', ())
    for lit, name, spec, conv in parsed:
        out.append(lit)
        if name is None:
            continue
        if name == '':
            name, auto = str(auto), auto + 1
        if name.isdigit():
            if int(name) >= len(args):
                return None, Exc('IndexError', ())
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        elif name.isidentifier() or ' ' in name:
            return None, Exc('KeyError', (name,))
        else:
            raise Unsupported('format field %r' % name)
        out.append(fmt_value(I, st, fr, v, conv, spec))
    return ''.join(out), None


def concrete(v, what='text'):
    if not isinstance(v, str):
        raise Unsupported('%s that is not known: %r' % (what, v))
    return v


def raising(I, st, exc):
    s = st.fork()
    s.exc = exc
    return [(s, None)]


def names_of(I, st, v):
    if v is None:
        return []
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Ref) and isinstance(st.obj(v), HList):
        return list(st.obj(v).items)
    raise Unsupported('list of names %r' % (v,))


def arglist(I, st, pyx, varnames, args, kwargs, mode):
    def typed(n):
        n = concrete(n, 'name')
        return 'object %s' % n if mode == 'params' and pyx else n
    parts = []
    for v in names_of(I, st, varnames):
        if isinstance(v, (tuple, Ref)):
            n, d = names_of(I, st, v)
            parts.append('%s=%s' % (typed(n), I.to_str(d, st)))
        else:
            parts.append(typed(v))
    for x in (args, kwargs):
        if x is not None:
            parts.append(concrete(x))
    return ', '.join(parts)


class CodeModel(object):
    def __init__(self, w):
        self.w = w
        self.module = None
        from .world import Module
        m = self.module = Module('pypytools.codegen', __file__, False)
        mk = lambda name, table: Class(name, m, [], {k: Native(f, k) for k, f in table.items()}, None, False)
        self.Scope = mk('Scope', {
            'new_scope': self.new_scope, 'format': self.format, 'w': self.w_, 'ww': self.ww,
            'block': self.block, 'def_': self.def_('def_'), 'cdef_': self.def_('cdef_'),
            'cpdef_': self.def_('cpdef_'), 'cdef_var': self.cdef_var})
        self.Block = mk('Block', {'__enter__': self.enter, '__exit__': self.exit})
        self.Dict = mk('ScopeDict', {'__setitem__': self.dict_set, '__getitem__': self.dict_get,
                                     'update': self.dict_update})
        deleg = {n: self.delegate(n) for n in self.Scope.dict}
        deleg.update({'__init__': self.init, 'build': self.build,
                      'args': self.args('args'), 'params': self.args('params'), 'call': self.call})
        self.Code = mk('Code', deleg)
        self.Scope.dict['@dict'] = self.Dict

    # Code
    def init(self, I, st, fr, a, kw):
        st = st.fork()
        pyx = a[1] if len(a) > 1 else kw.get('pyx', False)
        o = st.wobj(a[0])
        o.fields['pyx'] = pyx
        lines = st.alloc(HList([]))
        sc = st.alloc(HObj(self.Scope, {'@code': a[0]}))
        o.fields.update({'_lines': lines, '_indentation': 0, 'global_scope': sc})
        return [(st, None)]

    def delegate(self, name):
        def f(I, st, fr, a, kw):
            sc = st.obj(a[0]).fields['global_scope']
            return self.Scope.dict[name].fn(I, st, fr, [sc] + a[1:], kw)
        return f

    def build(self, I, st, fr, a, kw):
        items = st.obj(st.obj(a[0]).fields['_lines']).items
        return [(st, '\n'.join(concrete(x) for x in items))]

    def pyx(self, st, code):
        v = st.obj(code).fields['pyx']
        if not isinstance(v, (bool, int)):
            raise Unsupported('pyx mode %r' % (v,))
        return bool(v)

    def args(self, mode):
        def f(I, st, fr, a, kw):
            d = dict(zip(('varnames', 'args', 'kwargs'), a[1:]))
            d.update(kw)
            return [(st, arglist(I, st, self.pyx(st, a[0]), d.get('varnames'), d.get('args'), d.get('kwargs'), mode))]
        return f

    def call(self, I, st, fr, a, kw):
        d = dict(zip(('funcname', 'varnames', 'args', 'kwargs'), a[1:]))
        d.update(kw)
        l = arglist(I, st, False, d.get('varnames'), d.get('args'), d.get('kwargs'), 'args')
        return [(st, '%s(%s)' % (concrete(d['funcname']), l))]

    # Scope
    def vars(self, st, sc, kw):
        d = {k: v for k, v in st.obj(sc).fields.items() if k not in PRIV}
        d.update(kw)
        return d

    def new_scope(self, I, st, fr, a, kw):
        st = st.fork()
        f = self.vars(st, a[0], kw)
        f['@code'] = st.obj(a[0]).fields['@code']
        return [(st, st.alloc(HObj(self.Scope, f)))]

    def fmt(self, I, st, fr, sc, s, kw):
        d = self.vars(st, sc, kw)
        if not d:
            return s, None
        return format_str(I, st, fr, s, (), d)

    def format(self, I, st, fr, a, kw):
        s, e = self.fmt(I, st, fr, a[0], concrete(a[1]), kw)
        if e is not None:
            return raising(I, st, e)
        return [(st, s)]

    def emit(self, st, code, s):
        o = st.obj(code)
        l = st.wobj(o.fields['_lines'])
        l.items = l.items + [' ' * o.fields['_indentation'] + s]

    def w_(self, I, st, fr, a, kw):
        s, e = self.fmt(I, st, fr, a[0], ' '.join(concrete(x) for x in a[1:]), kw)
        if e is not None:
            return raising(I, st, e)
        st = st.fork()
        self.emit(st, st.obj(a[0]).fields['@code'], s)
        return [(st, None)]

    def ww(self, I, st, fr, a, kw):
        import textwrap
        st = st.fork()
        code = st.obj(a[0]).fields['@code']
        for line in textwrap.dedent(concrete(a[1])[1:]).splitlines():
            s, e = self.fmt(I, st, fr, a[0], line, kw)
            if e is not None:
                return raising(I, st, e)
            self.emit(st, code, s)
        return [(st, None)]

    def block(self, I, st, fr, a, kw):
        st = st.fork()
        kw = dict(kw)
        s = a[1] if len(a) > 1 else kw.pop('s', None)
        autopass = a[2] if len(a) > 2 else kw.pop('autopass', True)
        b = st.alloc(HObj(self.Block, {'scope': a[0], 'text': s, 'autopass': autopass, 'kw': tuple(kw.items())}))
        return [(st, b)]

    def enter(self, I, st, fr, a, kw):
        b = st.obj(a[0])
        (st, ns), = self.new_scope(I, st, fr, [b.fields['scope']], dict(b.fields['kw']))
        code = st.obj(ns).fields['@code']
        if b.fields['text'] is not None:
            (st, _), = self.w_(I, st, fr, [ns, b.fields['text']], {})
            if st.exc:
                return [(st, None)]
        o = st.wobj(code)
        o.fields['_indentation'] = o.fields['_indentation'] + 4
        st.wobj(a[0]).fields.update(ns=ns, n=len(st.obj(o.fields['_lines']).items))
        return [(st, ns)]

    def exit(self, I, st, fr, a, kw):
        st = st.fork()
        b = st.obj(a[0])
        code = st.obj(b.fields['scope']).fields['@code']
        if b.fields['autopass'] and len(st.obj(st.obj(code).fields['_lines']).items) == b.fields['n']:
            self.emit(st, code, 'pass')
        o = st.wobj(code)
        o.fields['_indentation'] = o.fields['_indentation'] - 4
        return [(st, None)]

    def def_(self, kind):
        def f(I, st, fr, a, kw):
            d = dict(zip(('funcname', 'varnames', 'args', 'kwargs'), a[1:]))
            d.update(kw)
            pyx = self.pyx(st, st.obj(a[0]).fields['@code'])
            pl = arglist(I, st, pyx, d.get('varnames'), d.get('args'), d.get('kwargs'), 'params')
            k = {'funcname': d['funcname'], 'paramlist': pl}
            if kind == 'def_':
                t = 'def {funcname}({paramlist}):'
            else:
                t = '{cpdef} {funcname}({paramlist}):'
                k['cpdef'] = kind[:-1] if pyx else 'def'
            return self.block(I, st, fr, [a[0], t], k)
        return f

    def cdef_var(self, I, st, fr, a, kw):
        d = dict(zip(('typename', 'varname', 'default'), a[1:]))
        d.update(kw)
        if not self.pyx(st, st.obj(a[0]).fields['@code']):
            return [(st, None)]
        t = 'cdef {typename} {varname}' + (' = {default}' if d.get('default') is not None else '')
        return self.w_(I, st, fr, [a[0], t], d)

    # ns.__dict__
    def dict_set(self, I, st, fr, a, kw):
        st = st.fork()
        st.wobj(st.obj(a[0]).fields['scope']).fields[a[1]] = a[2]
        return [(st, None)]

    def dict_get(self, I, st, fr, a, kw):
        return [(st, st.obj(st.obj(a[0]).fields['scope']).fields[a[1]])]

    def dict_update(self, I, st, fr, a, kw):
        st = st.fork()
        d = dict(kw)
        if len(a) > 1:
            d.update(st.obj(a[1]).items)
        st.wobj(st.obj(a[0]).fields['scope']).fields.update(d)
        return [(st, None)]

    def scope_dict(self, I, st, ref):
        st2 = st
        return st2.alloc(HObj(self.Dict, {'scope': ref}))


# ------------------------------------------------------------------ *_extended.py
def extend_module(I, st, fr, args, kw):
    """capnpy.util.extend_module_maybe(globals(), filename|modname): run the
    sibling <mod>_extended.py in the calling module's namespace"""
    if 'exec' in I.w.mocks:
        return None         # a law about the function itself
    m = fr.module
    if getattr(m, 'generated', False):
        f = I.w.mocks.get('capnpy.util.extend_module_maybe')
        if f is None:
            return [(st, None)]
        s = st.fork()
        d = s.alloc(HDict({k: v for k, v in m.globals.items() if isinstance(k, str)}))
        return I.call(f, [d], dict(kw), s, fr, None)
    base, ext = os.path.splitext(m.path)
    p = base + '_extended.py'
    if not os.path.exists(p):
        return [(st, None)]
    sm = frontend.parse_py(p)
    for n in ast.walk(sm.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            n._file = p
    m.extended = p
    s = st.fork()
    s.env = m.globals
    s = I.run_toplevel(sm.tree.body, s, Frame(I.w, None, m))
    return [(s, None)]


def py_path_local(I, st, fr, args, kw):
    p = concrete(args[0], 'path') if args else ''
    base = os.path.basename(p)

    def dirpath(I, st, fr, args, kw):
        return py_path_local(I, st, fr, [os.path.dirname(p)], {})
    st = st.fork()
    return [(st, st.alloc(HObj('py.path', {'purebasename': os.path.splitext(base)[0], 'basename': base,
                                           'ext': os.path.splitext(base)[1], 'strpath': p,
                                           'dirpath': Native(dirpath, 'dirpath')})))]


def compile_source(w, text, pyx, imports=None, facts=None):
    """module object for emitted source text; imports: file or module name -> module"""
    imports = imports or {}
    key = (text, bool(pyx), tuple(sorted((k, id(v)) for k, v in imports.items())), repr(facts) if facts else None)
    cache = w.__dict__.setdefault('generated', {})
    if key in cache:
        return cache[key]
    from .world import Module
    n = len(cache)
    name = 'generated%d' % n
    path = os.path.join(w.root, 'capnpy', '%s.%s' % (name, 'pyx' if pyx else 'py'))
    m = Module(name, path, bool(pyx))
    m.generated = True
    m.text = text
    m.globals['__name__'] = name
    m.globals['__file__'] = path
    m.globals['__schema__'] = path
    m.imports = imports
    if pyx:
        m.sm = frontend.parse_cython(path, text)
        m.sm.compiled = True
        w.bind_c(m)
    else:
        m.sm = frontend.parse_py(path, text)
    w.modules[name] = m
    save = w.base
    w.base = State()
    w.base.facts = facts.copy() if facts else save.facts
    w.base.heap = dict(save.heap)
    m.loader = w.base.alloc(HObj('the compiler', {'load_schema': Native(load_imported(m), 'load_schema')}))
    m.globals['__compiler'] = m.loader
    try:
        w.run_module(m)
    finally:
        save.heap.update((k, v) for k, v in w.base.heap.items() if k == m.loader)
        w.base = save
    bad = m.__dict__.get('top_unsupported') or m.__dict__.get('top_raised')
    if bad:
        line = text.split('\n')[bad[0][0] - 1] if bad[0][0] else ''
        m.bad = '%s [%s]' % (bad[0][1], line.strip()[:80])
    cache[key] = m
    return m


def load_imported(m):
    def f(I, st, fr, args, kw):
        names = [x for x in list(args) + list(kw.values()) if isinstance(x, str)]
        for n in names:
            if n in m.imports:
                return [(st, m.imports[n])]
        return [(I.raise_(st, 'ImportError', tuple(names)), None)]
    return f


def unrolled(I, f, args, kw, st, fr):
    """the generator's loops run over the (concrete) lists of the schema"""
    save, I.unroll, I.generating = (I.unroll, I.generating), max(I.unroll, 64), True
    try:
        return I.call(f, args, kw, st, fr)
    finally:
        I.unroll, I.generating = save


QUIET = ('AttributeError', 'NameError', 'TypeError', 'KeyError', '?')


def quiet(e):
    if e.name == 'TypeError' and e.args and isinstance(e.args[0], str) and e.args[0].startswith('missing argument'):
        return False        # a call that never fits
    return e.name in QUIET


def i_generated(I, st, fr, args, kw):
    """generated(gen) -> module: run a ModuleGenerator and load what it emits.
    Failures that only say the model of the schema is too small give up."""
    gen = args[0]
    pyx = st.obj(gen).fields['pyx']
    imports = st.obj(kw['imports']).items if 'imports' in kw else None
    out = []
    for s, f in I.getattr(st, gen, 'generate', fr):
        for s2, text in unrolled(I, f, [], {}, s, fr):
            if s2.exc is not None:
                if quiet(s2.exc):
                    raise Unsupported('generator: %r %s' % (s2.exc, s2.exc.args))
                out.append((s2, None))
                continue
            m = compile_source(I.w, concrete(text), pyx, imports)
            if getattr(m, 'bad', None) and (s2.facts.ge or s2.facts.ne or s2.facts.preds):
                # what is done when the module is imported may depend on the arguments of the law
                m = compile_source(I.w, concrete(text), pyx, imports, s2.facts)
            raised = m.__dict__.get('top_raised')
            if raised and raised[0][1] == 'ImportError':
                out.append((I.raise_(s2, 'ImportError'), None))     # refuses to be imported
                continue
            if getattr(m, 'bad', None):
                raise Unsupported('emitted module: %s' % m.bad)
            out.append((s2, m))
    return out


def i_quietly(I, st, fr, args, kw):
    """quietly(f, *args): like f(*args), but exceptions that the model of the
    schema may be the cause of make the law undecided"""
    out = []
    for s, v in unrolled(I, args[0], list(args[1:]), kw, st, fr):
        if s.exc is not None and quiet(s.exc):
            raise Unsupported('generator: %r %s' % (s.exc, s.exc.args))
        out.append((s, v))
    return out


def b_globals(I, st, fr, args, kw):
    return [(st, Bound(fr.module, Builtin('globals')))]


def install(w):
    cm = w.codemodel = CodeModel(w)
    w.hooks['capnpy.util.extend_module_maybe'] = extend_module
    w.hooks['py.path.local'] = py_path_local
    return w
