"""capnpy decode"""
from model import struct, Ty, SlotField
from c08_messages import File
from c14_entry import docopt, command, values, ARGS

main = repo('capnpy.__main__:main')

LINES = []
STREAM = []


class Opened(File):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def opened(name, mode='r'):
    return Opened(STREAM[0])


def printed(*args, **kw):
    if not kw.get('file'):
        LINES.append(args)


class Loaded:
    pass


def load_schema(modname=None, importname=None, filename=None, pyx='auto', options=None):
    m = Loaded()
    m.A = struct('py', [SlotField(b'x', Ty('int64'), 0, 0)], dw=1, pc=0)
    return m


def clock():
    return 0


class decode_stream:
    """every message of the stream is written, and the end of the stream is the end of the program"""
    prop = 'C24,C08'
    track = ()
    unroll = 6
    mocks = {'docopt.docopt': docopt, 'open': opened, 'print': printed, 'time.time': clock,
             'capnpy.load_schema': load_schema}
    cases = (0, 1, 2, 3)

    def spec(n):
        return ['(x = %d)' % (i + 5) for i in range(n)]

    def impl(n):
        m = load_schema()
        STREAM.append(b''.join([m.A(i + 5).dumps() for i in range(n)]))
        command('decode', 'bytes', False, False, False, False)
        main(['x'])
        return [x[0] for x in LINES if x[0].startswith('(')]


class decode_truncated:
    """a stream that ends in the middle of a message is an error, not a short stream"""
    prop = 'C24,C08'
    track = ()
    unroll = 6
    mocks = {'docopt.docopt': docopt, 'open': opened, 'print': printed, 'time.time': clock,
             'capnpy.load_schema': load_schema}
    cases = (2, 6, 12, 20)

    def spec(n):
        raises()

    def impl(n):
        m = load_schema()
        STREAM.append(m.A(1).dumps() + m.A(2).dumps()[:n])
        command('decode', 'bytes', False, False, False, False)
        main(['x'])


SEEN = []


def load_with(modname=None, importname=None, filename=None, pyx='auto', options=None):
    SEEN.append((modname, pyx, values(options)))
    return load_schema()


class decode_options:
    """the schema of decode is loaded with the settings of the command line"""
    prop = 'C24,C14'
    track = ()
    unroll = 6
    mocks = {'docopt.docopt': docopt, 'open': opened, 'print': printed, 'time.time': clock,
             'capnpy.load_schema': load_with}
    cases = ('bytes', 'unicode')

    def spec(text, a: 'bool', b: 'bool', c: 'bool', d: 'bool'):
        return [('a.foo', False if b else 'auto',
                 (0 if c else 1, 0 if a else 1, 2 if text == 'unicode' else 1, 0 if d else 1))]

    def impl(text, a, b, c, d):
        STREAM.append(b'')
        command('decode', text, a, b, c, d)
        main(['x'])
        return SEEN
