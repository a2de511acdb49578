"""C14: the settings given to a way of compiling are the ones the code is generated with (libraries, file
system and command line parser are replaced by stand-ins)."""
from c14_options import Opts, build, values, NOTSET, FIELDS
from c15_loading import Path, Mod, FILES, dynamic
from capnpy import annotate
StandaloneCompiler = repo('capnpy.compiler.compiler:StandaloneCompiler')
DistutilsCompiler = repo('capnpy.compiler.compiler:DistutilsCompiler')
parse_argv = repo('capnpy.__main__:parse_argv')
main = repo('capnpy.__main__:main')
capnpify = repo('capnpy.compiler.distutils:capnpify')
capnpy_schemas = repo('capnpy.compiler.distutils:capnpy_schemas')

GENERATED = []
CALLS = []


def init(self, request, pyx, standalone, default_options, version):
    """stands for ModuleGenerator.__init__"""
    self.modname = 'foo'
    self.tmpname = 'foo_tmp'
    GENERATED.append((request, pyx, bool(standalone), values(default_options)))


def generate(self):
    return 'source %d' % len(GENERATED)


def parse(self, filename):
    """stands for _parse_schema_file"""
    return 'request for ' + str(filename)


def build_dll(self, filename, m, src):
    """stands for _pyx_to_dll"""
    return '/dll/' + str(src)


def import_dll(name, path):
    return Mod(path)


STUBS = {'ModuleGenerator.__init__': init, 'ModuleGenerator.generate': generate,
         'capnpy.compiler.compiler.BaseCompiler._parse_schema_file': parse,
         'capnpy.compiler.compiler.BaseCompiler._pyx_to_dll': build_dll,
         'capnpy.compiler.compiler.import_from_path': import_dll}


class Text:
    """py.code.Source"""
    def __init__(self, src):
        self.src = src

    def __str__(self):
        return self.src

    def compile(self):
        return self.src


def execute(code, ns):
    CALLS.append(code)


def defaults(a, b, c, d):
    """what is left unset has the documented default"""
    return (1 if a == NOTSET else a, 1 if b == NOTSET else b, 1 if c == 0 else c, 1 if d == NOTSET else d)


class load_options:
    """load_schema generates code with the options given, and the documented defaults of the others"""
    prop = 'C14'
    track = ()
    stub = STUBS
    mocks = {'py.code.Source': Text, 'exec': execute, 'py.path.local': Path, 'types.ModuleType': Mod, 'sys.modules': {}}
    cases = tuple((pyx, given) for pyx in (False, 'pyx') for given in (True, False))

    def spec(pyx, given, a: 'int', b: 'int', c: 'int', d: 'int'):
        requires(0 <= a and a <= 2 and 0 <= b and b <= 2 and 0 <= c and c <= 2 and 0 <= d and d <= 2)
        want = defaults(a, b, c, d) if given else (1, 1, 1, 1)
        return [('request for /a/foo.capnp', pyx == 'pyx', False, want)]

    def impl(pyx, given, a, b, c, d):
        comp = dynamic()
        comp.load_schema(filename='/a/foo.capnp', pyx=(pyx == 'pyx'), options=build(a, b, c, d) if given else None)
        return GENERATED


class standalone_options:
    """the same for the compilers which write files; the file is beside the schema"""
    prop = 'C14,C15'
    track = ()
    stub = STUBS
    mocks = {'py.code.Source': Text, 'py.path.local': Path}
    cases = tuple((cls, pyx, given) for cls in ('standalone', 'distutils') for pyx in (False, 'pyx')
                  for given in (True, False) if cls == 'distutils' or not pyx)

    def spec(cls, pyx, given, a: 'int', b: 'int', c: 'int', d: 'int'):
        requires(0 <= a and a <= 2 and 0 <= b and b <= 2 and 0 <= c and c <= 2 and 0 <= d and d <= 2)
        want = defaults(a, b, c, d) if given else (1, 1, 1, 1)
        return ([('request for /a/foo.capnp', pyx == 'pyx', True, want)],
                '/a/foo.pyx' if pyx == 'pyx' else '/a/foo.py')

    def impl(cls, pyx, given, a, b, c, d):
        C = StandaloneCompiler if cls == 'standalone' else DistutilsCompiler
        comp = C([])
        comp.compile('/a/foo.capnp', pyx == 'pyx', build(a, b, c, d) if given else None)
        return GENERATED, list(FILES)[0]


ARGS = {}


def docopt(doc, argv=None):
    return ARGS


def command(name, text, no_case, no_pyx, no_check, no_reflection):
    """what docopt returns for the usage message of the program"""
    for k in ('compile', 'decode'):
        ARGS[k] = k == name
    ARGS['FILE'] = '/a/foo.capnp'
    ARGS['SCHEMA'] = 'a.foo' if name == 'decode' else None
    ARGS['CLASS'] = 'A' if name == 'decode' else None
    ARGS['--text-type'] = text
    ARGS['--no-convert-case'] = no_case
    ARGS['--no-pyx'] = no_pyx
    ARGS['--no-version-check'] = no_check
    ARGS['--no-reflection'] = no_reflection


class command_line:
    """every switch of the command line sets its option, and no other"""
    prop = 'C14'
    track = ()
    mocks = {'docopt.docopt': docopt}
    cases = ('bytes', 'unicode', 'wrong')

    def spec(text, a: 'bool', b: 'bool', c: 'bool', d: 'bool'):
        if text == 'wrong':
            raise SystemExit
        return (0 if c else 1, 0 if a else 1, 2 if text == 'unicode' else 1, 0 if d else 1), (False if b else 'auto')

    def impl(text, a, b, c, d):
        command('compile', text, a, b, c, d)
        args, opts = parse_argv(['x'])
        return values(opts), args['--pyx']


def cli_compile(self, filename, pyx, options):
    """stands for StandaloneCompiler.compile"""
    CALLS.append((str(filename), pyx, values(options)))


class command_compile:
    """`capnpy compile` compiles the file with the options of the command line"""
    prop = 'C14'
    track = ()
    mocks = {'docopt.docopt': docopt, 'py.path.local': Path, 'sys.path': ['/x']}
    stub = {'capnpy.compiler.compiler.StandaloneCompiler.compile': cli_compile}

    def spec(a: 'bool', b: 'bool', c: 'bool', d: 'bool'):
        return [('/a/foo.capnp', False if b else 'auto', (0 if c else 1, 0 if a else 1, 2, 0 if d else 1))]

    def impl(a, b, c, d):
        command('compile', 'unicode', a, b, c, d)
        main(['x'])
        return CALLS


def dist_compile(self, filename, pyx='auto', options=None):
    """stands for DistutilsCompiler.compile"""
    CALLS.append((str(filename), pyx, None if options is None else values(options)))
    return Path(str(filename) + '.out')


class Ext:
    def __init__(self, name, sources, include_dirs=None):
        self.sources = sources


class Dist:
    def __init__(self, options):
        self.capnpy_options = options
        self.ext_modules = None


def cythonize(exts):
    return [e.sources for e in exts]


class setup_keywords:
    """capnpy_schemas and capnpy_options of setup(): every schema is compiled with the options given"""
    prop = 'C14'
    track = ()
    worlds = ('compiled',)
    mocks = {'py.path.local': Path, 'sys.path': ['/x'], 'setuptools.Extension': Ext, 'Cython.Build.cythonize': cythonize}
    stub = {'capnpy.compiler.compiler.DistutilsCompiler.compile': dist_compile}
    cases = ((True, ()), (False, ()), ('auto', ()), (None, ()), (False, ('version_check',)), (None, ('convert_case',)),
             (True, ('include_reflection_data', 'convert_case')))

    def spec(pyx, names, v: 'bool'):
        o = [1 if v else 0 for n in names]
        want = [NOTSET, NOTSET, 0, NOTSET]
        for i in range(len(names)):
            want[FIELDS.index(names[i])] = o[i]
        p = 'auto' if pyx is None else pyx
        exts = ['/a.capnp.out', '/b.capnp.out'] if p else []
        return [('/a.capnp', p, tuple(want)), ('/b.capnp', p, tuple(want))], [[x] for x in exts]

    def impl(pyx, names, v):
        opts = {}
        if pyx is not None:
            opts['pyx'] = pyx
        for n in names:
            opts[n] = v
        d = Dist(opts)
        capnpy_schemas(d, 'capnpy_schemas', ['/a.capnp', '/b.capnp'])
        return CALLS, d.ext_modules
