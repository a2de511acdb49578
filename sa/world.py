"""The analysed program: its modules, classes and functions, in one of its two
build variants ('compiled': Cython modules + .pxd types; 'pure': plain Python)."""
import ast
import os
import re

from . import frontend
from .frontend import Sig, Unsupported, SourceModule
from .cfront import Header
from .values import Func, Class, Builtin, Ext, State, HObj, HList, HDict, Ref
from .terms import atom


class Module(object):
    def __init__(self, name, path, compiled):
        self.name, self.path, self.compiled = name, path, compiled
        self.globals = {}
        self.c = {}              # C level names (externs, cdef functions)
        self.sm = None
        self.pxd = None
        self.types = {}          # declared types of module level cdef variables
        self.pyhas = set()
        self.maxrec = 12 if name.startswith(('capnpy.compiler', 'capnpy.schema', 'law.')) else 1

    def __repr__(self):
        return '<module %s>' % self.name

    def funcs(self):
        """all functions of the module (methods included)"""
        out = []
        for v in list(self.c.values()) + list(self.globals.values()):
            if isinstance(v, Func) and v.module is self and v not in out:
                out.append(v)
            elif isinstance(v, Class) and v.module is self:
                for w in v.dict.values():
                    if isinstance(w, Func) and w not in out:
                        out.append(w)
        return out


class Lazy(object):
    """a `from m import n` that could not be resolved yet (import cycles)"""
    def __init__(self, modname, name):
        self.modname, self.name = modname, name


SKIP_BASE = object()


class World(object):
    def __init__(self, kind, root='/repo'):
        assert kind in ('compiled', 'pure')
        self.kind = kind
        self.root = root
        self.modules = {}
        self.base = State()
        self.hooks = {}            # qualname -> fn(interp, st, fr, args, kw) -> results or None
        self.framing = False       # record which objects exist when a law calls the program
        self.mocks = {}            # library name -> what it stands for (laws of loading and compiling)
        self.field_hooks = {}      # (class name, field) -> fn(interp, st, ref) -> value
        self.strict64 = False
        self.log = None            # list of Events when recording
        self.headers = {}
        self.open_methods = set()  # methods that generated subclasses override
        self.compiled_list = self._compiled_list()
        self.depth = 0
        self.visited = set()       # functions entered
        from .interp import Interp
        self.interp = Interp(self)

    def _compiled_list(self):
        """what setup.py compiles (read from its source, not executed)"""
        p = os.path.join(self.root, 'setup.py')
        tree = ast.parse(open(p).read(), p)
        out = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
               n.value.startswith('capnpy/') and n.value.endswith(('.py', '.pyx')):
                out.add(n.value)
        return out

    # -- loading
    def path_of(self, name):
        base = os.path.join(self.root, name.replace('.', '/'))
        if self.kind == 'compiled' and os.path.exists(base + '.pyx'):
            return base + '.pyx'
        if os.path.exists(base + '.py'):
            return base + '.py'
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py')
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.path_of(name)
        if path is None:
            return None
        rel = os.path.relpath(path, self.root)
        compiled = self.kind == 'compiled' and rel in self.compiled_list
        m = Module(name, path, compiled)
        self.modules[name] = m
        m.globals['__name__'] = name
        m.globals['__file__'] = path
        pxd = os.path.join(self.root, name.replace('.', '/') + '.pxd')
        if path.endswith('.pyx'):
            m.sm = frontend.parse_cython(path)
        else:
            m.sm = frontend.parse_py(path)
        if os.path.exists(pxd):
            m.pxd = frontend.parse_cython(pxd)
        if compiled:
            m.sm.compiled = True
            if m.pxd is not None:
                frontend.merge_pxd(m.sm, m.pxd)
            self.bind_c(m)
        if name == 'capnpy':
            self._stub_package(m)
            return m
        self.run_module(m)
        return m

    def _stub_package(self, m):
        pass

    def header(self, fname, near):
        for d in (os.path.dirname(near), os.path.join(self.root, 'capnpy')):
            p = os.path.join(d, fname)
            if os.path.exists(p):
                if p not in self.headers:
                    self.headers[p] = Header(p)
                return self.headers[p]
        return None

    def bind_c(self, m):
        d = m.sm.decls
        m.types = dict(d.vars)
        for local, (cname, sig, header) in d.externs.items():
            m.c[local] = self.bind_extern(m, local, cname, sig, header)
        for local, (mod, name) in d.cimports.items():
            if mod.startswith(('libc', 'cpython', 'cython')) or mod == 'cython':
                if name == 'INT64_MAX':
                    m.c[local] = 2 ** 63 - 1
                elif name is not None:
                    m.c[local] = Ext(name, name, None, mod)
                continue
            if name is None:
                m.c[local] = Lazy(mod, None)
            else:
                m.c[local] = Lazy(mod, name)

    def bind_extern(self, m, local, cname, sig, header):
        h = self.header(header, m.path) if header else None
        if h is not None:
            if isinstance(sig, Sig):
                target = h.alias(cname)
                f = h.macro_function(target, sig) or h.c_function(target, sig)
                if f is not None:
                    fn = Func(f, m)
                    fn.header = h
                    fn.name = local
                    return fn
                return Ext(local, target, sig, header)
            c = h.const(cname)
            if c is not None:
                return c
        if isinstance(sig, Sig):
            return Ext(local, cname, sig, header)
        if cname == 'PY_MAJOR_VERSION':
            return 3
        return Ext(local, cname, sig, header)

    def run_module(self, m):
        from .interp import Frame
        fr = Frame(self, None, m)
        st = self.base
        st2 = st.fork()
        st2.env = m.globals
        res = self.interp.run_toplevel(m.sm.tree.body, st2, fr)
        self.base.facts = st.facts
        self.base.events = []
        # cdef/cpdef functions are C level names too
        for k, v in list(m.globals.items()):
            if isinstance(v, Func) and v.sig is not None and v.sig.kind in ('cdef', 'cpdef'):
                m.c[k] = v

    def resolve(self, v):
        if isinstance(v, Lazy):
            m = self.load(v.modname)
            if m is None:
                if v.name is None:
                    return Builtin(v.modname)
                return Builtin('%s.%s' % (v.modname, v.name))
            if v.name is None:
                return m
            full = '%s.%s' % (v.modname, v.name)
            if full in self.mocks:
                return self.mocks[full]
            return self.mod_attr(m, v.name)
        return v

    def mod_attr(self, m, name):
        for ns in (m.c, m.globals):
            if name in ns:
                v = ns[name]
                if isinstance(v, Lazy):
                    if v.modname == m.name and v.name == name:
                        continue
                    if '%s.%s' % (v.modname, v.name) in self.mocks:
                        return self.resolve(v)
                    v = ns[name] = self.resolve(v)
                return v
        sub = self.load(m.name + '.' + name)
        if sub is not None:
            return sub
        if m.name == 'capnpy' and name == '__version__':
            return 'VERSION'
        return None

    # -- access
    def cls(self, dotted):
        mod, name = dotted.rsplit('.', 1)
        m = self.load(mod)
        if m is None:
            return None
        v = m.globals.get(name)
        v = self.resolve(v)
        return v if isinstance(v, Class) else None

    def func(self, dotted):
        """'capnpy.segment.base:BaseSegment.read_int64' or 'mod:func'"""
        mod, name = dotted.split(':')
        m = self.load(mod)
        if m is None:
            return None
        if '.' in name:
            c, f = name.split('.')
            k = self.resolve(m.globals.get(c))
            if not isinstance(k, Class):
                return None
            v = k.lookup(f)
        else:
            v = self.mod_attr(m, name)
        return v if isinstance(v, Func) else None

    CLASSMODS = {
        'Segment': 'capnpy.segment.segment', 'MultiSegment': 'capnpy.segment.segment',
        'BaseSegment': 'capnpy.segment.base', 'SegmentBuilder': 'capnpy.segment.builder',
        'Struct': 'capnpy.struct_', 'List': 'capnpy.list', 'ItemType': 'capnpy.list',
        'Blob': 'capnpy.blob', 'BuiltinType': 'capnpy.type', 'FileLike': 'capnpy.filelike',
        'StructItemType': 'capnpy.list', 'BufferedStream': 'capnpy.buffered',
        'StringBuffer': 'capnpy.buffered'}

    def class_named(self, name, module=None):
        """class for a C type name as seen from a module"""
        if not name or name in ('object', 'bytes', 'str', 'unicode', 'tuple', 'list', 'dict', 'type'):
            return None
        if module is not None:
            v = module.globals.get(name, module.c.get(name))
            v = self.resolve(v)
            if isinstance(v, Class):
                return v
        mod = self.CLASSMODS.get(name)
        if mod:
            c = self.cls(mod + '.' + name)
            if c is not None:
                return c
        for m in list(self.modules.values()):
            v = m.globals.get(name)
            if isinstance(v, Class):
                return v
        return None

    def pxd_class_attr(self, cls, name):
        """declared type of an attribute (from the .pxd, in both variants)"""
        for c in cls.mro():
            if c.cdecl is not None and name in c.cdecl.attrs:
                return c.cdecl.attrs[name]
            if c.module is not None and c.module.pxd is not None:
                d = c.module.pxd.decls.classes.get(c.name)
                if d is not None and name in d.attrs:
                    return d.attrs[name]
        return None

    def pxd_sig(self, func):
        """declared signature of a function (from the .pxd, in both variants)"""
        if func.sig is not None:
            return func.sig
        m = func.module
        if m.pxd is None:
            return None
        if func.cls is not None:
            d = m.pxd.decls.classes.get(func.cls.name)
            return d.methods.get(func.name) if d else None
        return m.pxd.decls.funcs.get(func.name)
