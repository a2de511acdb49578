"""C15: loading a schema does not disturb the process or other schemas.

The libraries are replaced by stand-ins which say what they do to sys.modules
and to the file system; a failure may come from any of the steps."""
import sys
from capnpy import annotate
DynamicCompiler = repo('capnpy.compiler.compiler:DynamicCompiler')
StandaloneCompiler = repo('capnpy.compiler.compiler:StandaloneCompiler')
DistutilsCompiler = repo('capnpy.compiler.compiler:DistutilsCompiler')


class Failure(ImportError):
    pass


class Gen:
    """what is used of a ModuleGenerator"""
    def __init__(self, modname):
        self.modname = modname
        self.tmpname = modname + '_tmp'


class Mod:
    def __init__(self, name):
        self.__name__ = name
        self.__dict__ = {}


class Path:
    """a file name"""
    def __init__(self, s):
        self.strpath = s

    def __str__(self):
        return self.strpath

    @staticmethod
    def make_numbered_dir(prefix='session-', rootdir=None, keep=3):
        return Path('/tmp/' + prefix + '1')

    @property
    def basename(self):
        return self.strpath.rsplit('/', 1)[1]

    @property
    def purebasename(self):
        return self.basename.rsplit('.', 1)[0]

    def new(self, ext=None, purebasename=None):
        d = self.strpath.rsplit('/', 1)[0]
        if purebasename is None:
            purebasename = self.purebasename
        return Path(d + '/' + purebasename + '.' + ext.lstrip('.'))

    def dirpath(self):
        return Path(self.strpath.rsplit('/', 1)[0])

    def join(self, *others):
        p = self.strpath
        for o in others:
            p = p + '/' + str(o).lstrip('/')
        return Path(p)

    def ensure(self, file=False):
        return self

    def isdir(self):
        return True

    def exists(self):
        return self.strpath in FILES

    def mtime(self):
        return 0

    def relto(self, other):
        return self.strpath

    @property
    def dirname(self):
        return self.strpath.rsplit('/', 1)[0]

    @property
    def ext(self):
        return '.' + self.strpath.rsplit('.', 1)[1]

    def __eq__(self, other):
        return self.strpath == str(other)

    def __hash__(self):
        return hash(self.strpath)

    def check(self, file=False):
        return (self.strpath in FILES) == bool(file)

    def read(self):
        return FILES[self.strpath]

    def write(self, src):
        FILES[self.strpath] = src


MODULES = {}
FILES = {}
SEEN = []


class Loader:
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def exec_module(self, mod):
        SEEN.append((self.name, self.path, sys.modules['foo_tmp'].__dict__['__compiler'],
                     sys.modules['foo_tmp'].__dict__['__schema__']))
        if choice('exec'):
            raise Failure()


class Spec:
    def __init__(self, name, path):
        self.name = name
        self.loader = Loader(name, path)


def spec_from_file_location(name, path):
    return Spec(name, path)


def module_from_spec(spec):
    if choice('create'):
        raise Failure()
    return Mod(spec.name)


def dynamic(*path):
    return DynamicCompiler(list(path))


class compiled_module:
    """the table of modules is as it was after a compiled schema was loaded, or failed to load; the
    schema saw its compiler while it was executed"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path, 'sys.modules': MODULES, 'types.ModuleType': Mod, 'importlib.util.spec_from_file_location': spec_from_file_location,
             'importlib.util.module_from_spec': module_from_spec}
    stub = {'capnpy.compiler.compiler.BaseCompiler._pyx_to_dll': '/dll/foo.so'}
    cases = ((), ('foo_tmp',), ('capnpy.ext.foo',), ('other',))

    def spec(*before):
        if choice('create'):
            return None, [], {k: 'before' for k in before}
        seen = [('/dll/foo.so', True, '/a/foo.capnp')]
        return (None if choice('exec') else 'capnpy.ext.foo'), seen, {k: 'before' for k in before}

    def impl(*before):
        for k in before:
            MODULES[k] = 'before'
        c = dynamic()
        try:
            m = c._compile_pyx(Path('/a/foo.capnp'), Gen('foo'), 'source').__name__
        except Failure:
            m = None
        return m, [(path, comp is c, schema) for name, path, comp, schema in SEEN], MODULES


class Source:
    def __str__(self):
        return 'source'

    def compile(self):
        if choice('compile'):
            raise Failure()
        return 'code'


def execute(code, namespace):
    SEEN.append((code, namespace['__compiler'], namespace))
    namespace['A'] = 'the class A'
    if choice('exec'):
        raise Failure()


class python_module:
    """a schema loaded as Python is executed in a module of its own, which sees the compiler, and is
    registered nowhere"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path, 'sys.modules': MODULES, 'types.ModuleType': Mod, 'exec': execute}
    cases = ((), ('foo',))

    def spec(*before):
        table = {k: 'before' for k in before}
        if choice('compile'):
            return None, 0, True, table
        if choice('exec'):
            return None, 1, True, table
        return ('foo', '/a/foo.capnp', '/a/foo.capnp', 'the class A'), 1, True, table

    def impl(*before):
        for k in before:
            MODULES[k] = 'before'
        c = dynamic()
        try:
            m = c._compile_py(Path('/a/foo.capnp'), Gen('foo'), Source())
            r = (m.__name__, m.__file__, m.__schema__, m.__dict__['A'])
        except Failure:
            r = None
        ok = True
        for code, comp, ns in SEEN:
            ok = ok and code == 'code' and comp is c
        return r, len(SEEN), ok, MODULES


COMPILED = []


def get_filename(self, modname, importname, filename):
    return filename


def compile_file(self, filename, pyx, options):
    """stands for _compile_file"""
    COMPILED.append((filename, pyx, options))
    if choice(('compile', len(COMPILED))):
        raise Failure()
    return Mod('module %d' % len(COMPILED))


class load_history:
    """a file which fails to load is compiled again by the next load; one which was loaded is not, and
    other files do not matter"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path}
    stub = {'capnpy.compiler.compiler.DynamicCompiler._compile_file': compile_file,
            'capnpy.compiler.compiler.DynamicCompiler._get_filename': get_filename}
    cases = (('a',), ('a', 'a'), ('a', 'b'), ('a', 'a', 'a'), ('a', 'b', 'a'), ('a', 'b', 'b', 'a'))

    def spec(*names):
        loaded = {}
        compiled = []
        out = []
        for n in names:
            if n not in loaded:
                compiled.append((n, False, 'options'))
                if choice(('compile', len(compiled))):
                    out.append(None)
                    continue
                loaded[n] = 'module %d' % len(compiled)
            out.append(loaded[n])
        return out, compiled

    def impl(*names):
        c = dynamic()
        out = []
        for n in names:
            try:
                out.append(c.load_schema(filename=n, pyx=False, options='options').__name__)
            except Failure:
                out.append(None)
        return out, COMPILED


class find_file:
    """the file is the one of the first directory which has it"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path}
    cases = (('/x/a.capnp', ('/x/a.capnp',)), ('/y/a.capnp', ('/y/a.capnp',)), ('/x/a.capnp', ('/y/a.capnp', '/x/a.capnp')),
             ('/z/a.capnp', ('/z/a.capnp',)), (None, ('/x/b.capnp',)), (None, ()))

    def spec(found, files):
        if found is None:
            raise ValueError
        return found

    def impl(found, files):
        for f in files:
            FILES[f] = ''
        c = dynamic('/x', '/y', '/z')
        return str(c._find_file('/a.capnp'))


class which_file:
    """exactly one way to name the schema"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path}
    cases = (('a.b', None, None, '/x/a/b.capnp'), (None, '/a/b.capnp', None, '/x/a/b.capnp'),
             (None, None, '/q/b.capnp', '/q/b.capnp'), (None, 'a/b.capnp', None, None), (None, None, None, None),
             ('a.b', '/a/b.capnp', None, None), (None, '/a/b.capnp', '/q/b.capnp', None), ('a', None, '/x/a/b.capnp', None),
             ('nothing', None, None, None))

    def spec(modname, importname, filename, want):
        if want is None:
            raise ValueError
        return want

    def impl(modname, importname, filename, want):
        FILES['/x/a/b.capnp'] = ''
        c = dynamic('/w', '/x')
        return str(c._get_filename(modname, importname, filename))


BUILT = []


def pyx_to_dll(filename, pyxbuild_dir=None, setup_args=None):
    """pyximport: the dll goes to a directory of the build dir, named after the .pyx"""
    BUILT.append((filename, pyxbuild_dir, FILES[filename]))
    return pyxbuild_dir + '/lib/' + filename.rsplit('/', 1)[1]


class build_places:
    """two schemas which are different files are built from, and to, different files"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path, 'pyximport.pyxbuild.pyx_to_dll': pyx_to_dll}
    cases = (('/a/foo.capnp', '/b/foo.capnp'), ('/a/foo.capnp', '/a/b/foo.capnp'))

    def spec(a, b):
        return True, True, 'source a', 'source b'

    def impl(a, b):
        c = dynamic()
        x = c._pyx_to_dll(Path(a), Gen('foo'), 'source a')
        y = c._pyx_to_dll(Path(b), Gen('foo'), 'source b')
        return x != y, BUILT[0][0] != BUILT[1][0], BUILT[0][2], BUILT[1][2]


def compile_source(src, name, mode):
    return src, name, mode


def run(code, namespace):
    SEEN.append((code, namespace['id']))


extend = repo('capnpy.util:extend_module_maybe')


class extension_module:
    """the _extended.py beside the schema, and no other, runs in the namespace of the module"""
    prop = 'C15,C27'
    track = ()
    mocks = {'py.path.local': Path, 'compile': compile_source, 'exec': run}
    cases = (('/a/foo.capnp', ('/a/foo_extended.py',), '/a/foo_extended.py'),
             ('/a/foo.capnp', ('/b/foo_extended.py', '/a/foo.py', '/a/extended.py'), None),
             ('/a/foo.capnp', (), None))

    def spec(filename, files, ext):
        if ext is None:
            return []
        return [((ext + '!', ext, 'exec'), 'the module')]

    def impl(filename, files, ext):
        for f in files:
            FILES[f] = f + '!'
        extend({'id': 'the module'}, filename=filename)
        return SEEN


class extension_module_by_name:
    """the same for a module on sys.path"""
    prop = 'C15,C27'
    track = ()
    mocks = {'py.path.local': Path, 'sys.path': ('/a', '/b'), 'compile': compile_source, 'exec': run}
    cases = (('foo', ('/a/foo_extended.py', '/b/foo_extended.py'), '/a/foo_extended.py'),
             ('foo', ('/b/foo_extended.py',), '/b/foo_extended.py'),
             ('x.foo', ('/b/x/foo_extended.py', '/b/foo_extended.py'), '/b/x/foo_extended.py'),
             ('x.foo', ('/b/foo_extended.py', '/a/foo_extended.py'), None),
             ('foo', ('/a/foo.py',), None))

    def spec(modname, files, ext):
        if ext is None:
            return []
        return [((ext + '!', ext, 'exec'), 'the module')]

    def impl(modname, files, ext):
        for f in files:
            FILES[f] = f + '!'
        extend({'id': 'the module'}, modname=modname)
        return SEEN


check_version = repo('capnpy.util:check_version')


class version_mismatch:
    """the module which does not match is dropped from the table of modules, and nothing else"""
    prop = 'C15'
    track = ()
    mocks = {'py.path.local': Path, 'sys.modules': MODULES}
    cases = (('VERSION', ('foo', 'bar')), ('0.9', ('foo', 'bar')), ('0.9', ('bar',)))

    def spec(version, before):
        table = {k: 'before' for k in before}
        if version == 'VERSION':
            return True, table
        return False, {k: 'before' for k in before if k != 'foo'}

    def impl(version, before):
        for k in before:
            MODULES[k] = 'before'
        ok = True
        try:
            check_version('foo', version)
        except ImportError:
            ok = False
        return ok, MODULES
