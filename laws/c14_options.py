"""C14: the setting in force is the nearest one that sets it."""
from model import struct, module, generator, options, Opts, Ty, SlotField, GroupField, StructNode, EnumNode, Ann, FILE
from capnpy import annotate

NOTSET = 2          # of BoolOption
TEXT_NOTSET = 0     # of TextType
FIELDS = ('version_check', 'convert_case', 'text_type', 'include_reflection_data')
Struct = repo('capnpy.struct_:Struct')


def notset(name):
    return TEXT_NOTSET if name == 'text_type' else NOTSET


def only(name, v):
    """options which set `name` to v and nothing else"""
    o = [NOTSET, NOTSET, TEXT_NOTSET, NOTSET]
    o[FIELDS.index(name)] = v
    return Opts(annotate.BoolOption._new(o[0]), annotate.BoolOption._new(o[1]), annotate.TextType._new(o[2]),
                annotate.BoolOption._new(o[3]))


def values(o):
    return (int(o.version_check), int(o.convert_case), int(o.text_type), int(o.include_reflection_data))


def build(a, b, c, d):
    return annotate.Options(annotate.BoolOption._new(a), annotate.BoolOption._new(b), annotate.TextType._new(c),
                            annotate.BoolOption._new(d))


class combine:
    """options given later win if they are set, one by one; the two arguments are unchanged"""
    prop = 'C14'
    track = ()
    cases = tuple((n,) for n in FIELDS)

    def spec(name, a: 'int', b: 'int', c: 'int', d: 'int', x: 'int'):
        requires(0 <= a and a <= 2 and 0 <= b and b <= 2 and 0 <= c and c <= 2 and 0 <= d and d <= 2)
        requires(0 <= x and x <= 2)
        r = [a, b, c, d]
        if x != notset(name):
            r[FIELDS.index(name)] = x
        return tuple(r), (a, b, c, d)

    def impl(name, a, b, c, d, x):
        first = build(a, b, c, d)
        o = [NOTSET, NOTSET, TEXT_NOTSET, NOTSET]
        o[FIELDS.index(name)] = x
        second = build(o[0], o[1], o[2], o[3])
        r = first.combine(second)
        return values(r), values(first)


class combine_all:
    """all options at once"""
    prop = 'C14'
    track = ()

    def spec(a: 'int', b: 'int', c: 'int', d: 'int', x: 'int', y: 'int', z: 'int', t: 'int'):
        requires(0 <= a and a <= 2 and 0 <= b and b <= 2 and 0 <= c and c <= 2 and 0 <= d and d <= 2)
        requires(0 <= x and x <= 2 and 0 <= y and y <= 2 and 0 <= z and z <= 2 and 0 <= t and t <= 2)
        return (a if x == NOTSET else x, b if y == NOTSET else y, c if z == TEXT_NOTSET else z,
                d if t == NOTSET else t)

    def impl(a, b, c, d, x, y, z, t):
        return values(build(a, b, c, d).combine(build(x, y, z, t)))


class from_dict:
    """options given as a dictionary; those which are not given are not set"""
    prop = 'C14'
    track = ()
    cases = tuple((n, v) for n in FIELDS for v in (('bytes', 'unicode') if n == 'text_type' else (True, False)))

    def spec(name, v):
        r = [NOTSET, NOTSET, TEXT_NOTSET, NOTSET]
        r[FIELDS.index(name)] = {'bytes': 1, 'unicode': 2, True: 1, False: 0}[v]
        return tuple(r)

    def impl(name, v):
        return values(annotate.Options.from_dict({name: v}))


class from_dict_more:
    prop = 'C14'
    track = ()

    def spec():
        return (0, 1, 2, 1), (NOTSET, NOTSET, TEXT_NOTSET, NOTSET)

    def impl():
        return (values(annotate.Options.from_dict({'text_type': 'unicode', 'include_reflection_data': True,
                                                   'convert_case': True, 'version_check': False})),
                values(annotate.Options.from_dict({})))


class from_dict_refused:
    """unknown options and unknown values are errors"""
    prop = 'C14'
    track = ()
    cases = (('versionCheck', True), ('pyx', True), ('text_type', 'str'), ('text_type', ''), ('', True))

    def spec(name, v):
        raise ValueError

    def impl(name, v):
        annotate.Options.from_dict({name: v})


def tree(top, outer, inner, field):
    """annotations at four levels of a schema with two structs, one nested in the other"""
    def ann(o):
        return [Ann(annotate.options, o)] if o is not None else None
    nodes = [
        StructNode(1, b'O', FILE, 1, 1, [SlotField(b'a', Ty('int32'), 0, 0), GroupField(b'g', 4)],
                   annotations=ann(outer)),
        StructNode(2, b'I', 1, 1, 1, [SlotField(b'x', Ty('int32'), 0, 0, annotations=ann(field)),
                                      SlotField(b'y', Ty('int32'), 1, 0)], prefix=b'O.', annotations=ann(inner)),
        StructNode(3, b'P', FILE, 1, 1, [SlotField(b'x', Ty('int32'), 0, 0)]),
        StructNode(4, b'g', 1, 1, 1, [SlotField(b'z', Ty('int32'), 1, 0)], isGroup=True, prefix=b'O.'),
        EnumNode(5, b'E', 1, [b'red'], prefix=b'O.')]
    return nodes, ann(top)


class nearest:
    """the options of every node and field are those of the nearest level that sets them"""
    prop = 'C14'
    track = ()
    cases = tuple((n,) for n in FIELDS)

    def spec(name, d: 'int', t: 'int', o: 'int', i: 'int', f: 'int'):
        requires(0 <= d and d <= 2 and 0 <= t and t <= 2 and 0 <= o and o <= 2 and 0 <= i and i <= 2)
        requires(0 <= f and f <= 2)
        n = notset(name)
        rt = d if t == n else t
        ro = rt if o == n else o
        ri = ro if i == n else i
        rf = ri if f == n else f
        return rt, ro, ri, rf, ri, rt, rt, ro, ro, ro

    def impl(name, d, t, o, i, f):
        nodes, top = tree(only(name, t), only(name, o), only(name, i), only(name, f))
        m = generator(nodes, 'py', only(name, d), top)
        O, I, P, g, E = nodes
        (x, y), (px,) = I.get_struct_fields(), P.get_struct_fields()
        a, gf = O.get_struct_fields()
        (z,) = g.get_struct_fields()
        return tuple([int(getattr(m.options(n), name)) for n in (m.allnodes[FILE], O, I, x, y, P, px, g, z, E)])


class nearest_missing:
    """levels without an annotation are skipped"""
    prop = 'C14'
    track = ()
    cases = tuple((n, l) for n in ('text_type', 'convert_case') for l in (0, 1, 2, 3))

    def spec(name, level, d: 'int', v: 'int'):
        requires(0 <= d and d <= 2 and 0 <= v and v <= 2)
        r = d if v == notset(name) else v
        return [(r, r, r, r, r, r), (d, r, r, r, r, d), (d, d, r, r, r, d), (d, d, d, r, d, d)][level]

    def impl(name, level, d, v):
        o = [None, None, None, None]
        o[level] = only(name, v)
        nodes, top = tree(o[0], o[1], o[2], o[3])
        m = generator(nodes, 'py', only(name, d), top)
        O, I, P, g, E = nodes
        x, y = I.get_struct_fields()
        return tuple([int(getattr(m.options(n), name)) for n in (m.allnodes[FILE], O, I, x, y, P)])


# ---------------------------------------------------------------- the generators use the options in force

def wf(s):
    requires(0 <= s._data_size and s._data_size <= 65535)
    requires(0 <= s._ptrs_size and s._ptrs_size <= 65535)
    requires(0 <= s._data_offset and s._data_offset <= 2**40)
    requires(s._data_offset + 8 * s._data_size + 8 * s._ptrs_size <= len(s._seg.buf))
    return s


def view(cls, s):
    obj = cls.__new__(cls)
    Struct._init_from_buffer(obj, s._seg, s._data_offset, s._data_size, s._ptrs_size)
    return obj


def texts(mode, default, level):
    """a text field and a list of texts, where `level` has an annotation for the other type than the default"""
    other = only('text_type', 1 if default == 'unicode' else 2)

    def ann(l):
        return [Ann(annotate.options, other)] if l == level else None
    nodes = [StructNode(1, b'S', FILE, 0, 4, [
        SlotField(b'x', Ty('text'), 0, annotations=ann('field')),
        SlotField(b'y', Ty('text'), 1),
        SlotField(b'l', Ty('list', Ty('text')), 2, annotations=ann('list')),
        SlotField(b'm', Ty('list', Ty('text')), 3)], annotations=ann('struct'))]
    return module(nodes, mode, default, annotations=ann('file')).S


def is_unicode(default, level, what):
    flip = level in ('file', 'struct') or level == what
    return (default == 'unicode') != flip


LEVELS = ('none', 'file', 'struct', 'field', 'list')


class text_type_read:
    """text is read as bytes or unicode as the nearest option says"""
    prop = 'C14,C22'
    opaque = ('Struct._read_text_unicode', 'Struct._read_text_bytes')
    cases = tuple((m, d, l) for d in ('bytes', 'unicode') for l in ('none', 'file', 'struct', 'field')
                  for m in ('py', 'pyx'))

    def spec(mode, default, level, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        p = view(texts('py', default, 'none'), s)
        x = p._read_text_unicode(0) if is_unicode(default, level, 'field') else p._read_text_bytes(0)
        y = p._read_text_unicode(8) if is_unicode(default, level, '') else p._read_text_bytes(8)
        return x, y

    def impl(mode, default, level, s):
        s = wf(s)
        p = view(texts(mode, default, level), s)
        return p.x, p.y


class text_type_ctor:
    """the constructors take the same type as the accessors return"""
    prop = 'C14,C11'
    track = ()
    cases = tuple((m, d, l) for d in ('bytes', 'unicode') for l in LEVELS for m in ('py', 'pyx'))

    def spec(mode, default, level):
        a = 'ab' if is_unicode(default, level, 'field') else b'ab'
        b = 'cd' if is_unicode(default, level, '') else b'cd'
        c = 'ef' if is_unicode(default, level, 'list') else b'ef'
        d = 'gh' if is_unicode(default, level, '') else b'gh'
        return a, b, [c], [d]

    def impl(mode, default, level):
        a = 'ab' if is_unicode(default, level, 'field') else b'ab'
        b = 'cd' if is_unicode(default, level, '') else b'cd'
        c = 'ef' if is_unicode(default, level, 'list') else b'ef'
        d = 'gh' if is_unicode(default, level, '') else b'gh'
        s = texts(mode, default, level)(a, b, [c], [d])
        return s.x, s.y, list(s.l), list(s.m)


class convert_case:
    """names are converted as the nearest option says"""
    prop = 'C14'
    cases = tuple((m, d, l) for d in (True, False) for l in ('none', 'file', 'struct', 'field', 'enum')
                  for m in ('py', 'pyx'))

    def spec(mode, default, level):
        S = default != (level in ('file', 'struct'))
        f = S != (level == 'field')
        e = default != (level in ('file', 'enum'))
        return f, not f, S, not S, e, not e

    def impl(mode, default, level):
        other = only('convert_case', 0 if default else 1)

        def ann(l):
            return [Ann(annotate.options, other)] if l == level else None
        E = EnumNode(2, b'E', FILE, [b'darkRed'])
        E.annotations = ann('enum')
        M = module([StructNode(1, b'S', FILE, 1, 0, [
            SlotField(b'fooBar', Ty('int8'), 0, 0, annotations=ann('field')),
            SlotField(b'barFoo', Ty('int8'), 1, 0)], annotations=ann('struct')), E],
            mode, convert=default, annotations=ann('file'))
        return (hasattr(M.S, 'foo_bar'), hasattr(M.S, 'fooBar'), hasattr(M.S, 'bar_foo'), hasattr(M.S, 'barFoo'),
                hasattr(M.E, 'dark_red'), hasattr(M.E, 'darkRed'))


class reflection_data:
    """reflection data is included if the options of the file say so"""
    prop = 'C14'
    track = ()
    stub = {'ModuleGenerator.declare_const': 'None'}
    cases = tuple((m, d, t) for d in (0, 1) for t in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, d, t):
        return (d if t == NOTSET else t) == 1

    def impl(mode, d, t):
        M = generated(generator([], mode, build(0, 1, 1, d), [Ann(annotate.options, only('include_reflection_data', t))]))
        return hasattr(M, '_reflection_data')


class version_check:
    """the version is checked if the options of the file say so"""
    prop = 'C14'
    track = ()
    stub = {'capnpy.util.check_version': ImportError}
    cases = tuple((m, d, t) for d in (0, 1) for t in (0, 1, 2) for m in ('py', 'pyx'))

    def spec(mode, d, t):
        if (d if t == NOTSET else t) == 1:
            raise ImportError
        return None

    def impl(mode, d, t):
        generated(generator([], mode, build(d, 1, 1, 0), [Ann(annotate.options, only('version_check', t))]))
