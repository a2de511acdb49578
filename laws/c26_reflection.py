"""Reflection: what it tells about a module agrees with the schema the module was compiled from."""
from model import Ty, SlotField, GroupField, StructNode, EnumNode, FileNode, ConstNode, Ann, Request, Requested, FILE, \
    module, options, reflecting
from capnpy import annotate
from capnpy import schema
from c11_groups import view, wf, field
from c12_imports import sized, segment

ReflectionData = repo('capnpy.reflection:ReflectionData')


def nodes():
    return [
        StructNode(1, b'Point', FILE, 2, 0, [SlotField(b'xCoord', Ty('int64'), 0, 0),
                                             SlotField(b'from', Ty('int32'), 2, 0),
                                             SlotField(b'plain', Ty('int32'), 3, 0)]),
        StructNode(4, b'Inner', 1, 1, 0, [SlotField(b'a', Ty('int64'), 0, 0)], prefix=b'Point.'),
        EnumNode(2, b'Color', FILE, [b'red', b'darkGreen']),
        ConstNode(3, b'answer', FILE, Ty('int8'), 42)]


def data(mode, convert, ns, annotations=None):
    r = ReflectionData()
    r.request = Request([FileNode(FILE, b'f.capnp', annotations)] + ns, [Requested(FILE, b'f.capnp')])
    r.default_options = options('bytes', convert)
    r.pyx = mode == 'pyx'
    return r


class node_by_id:
    """get_node(id) is the node with this id, and get_node(obj) the one obj was generated from"""
    prop = 'C26'
    cases = tuple((m, k) for k in range(7) for m in ('py', 'pyx'))

    def spec(mode, k):
        return (1, 4, 2, 3, 1, 4, 2)[k]

    def impl(mode, k):
        ns = nodes()
        r = quietly(data, mode, True, ns)
        if k < 4:
            return r.get_node((1, 4, 2, 3)[k]).id
        m = module(ns, mode)
        return r.get_node((m.Point, m.Point.Inner, m.Color)[k - 4]).id


class node_unknown:
    """an id that is not in the schema is a KeyError"""
    prop = 'C26'
    cases = ('py', 'pyx')

    def spec(mode):
        raise KeyError

    def impl(mode):
        return quietly(data, mode, True, nodes()).get_node(77)


class node_module:
    """get_node(module) is the node of the file"""
    prop = 'C26'
    track = ()
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', buf: 'bytes'):
        sized(s, segment(0, buf, 0, 0))
        return FILE

    def impl(mode, s, buf):
        ns = nodes()
        s = sized(s, segment(0, buf, 0, 0))
        return quietly(data, mode, True, ns).get_node(reflecting(ns, mode, s, s)).id


class field_names:
    """field_name() is the name of the attribute that reads this field"""
    prop = 'C26'
    cases = tuple((m, c, i) for c in (True, False) for i in range(3) for m in ('py', 'pyx'))

    def spec(mode, convert, i, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        if i == 0:
            return field(s, 'q', 0, 8)
        return field(s, 'i', 4 + 4 * i, 4)

    def impl(mode, convert, i, s):
        ns = nodes()
        r = quietly(data, mode, convert, ns)
        name = r.field_name(r.get_node(1).get_struct_fields()[i])
        return getattr(view(module(ns, mode, convert=convert).Point, s), name)


class annotations:
    """has_annotation() and get_annotation() find the annotations of nodes and of fields"""
    prop = 'C26'
    cases = tuple((m, k) for k in range(10) for m in ('py', 'pyx'))

    def spec(mode, k):
        return (True, False, b'x, y', True, True, False, False, True, None, b'')[k]

    def impl(mode, k):
        ns = [StructNode(1, b'S', FILE, 1, 0, [
            SlotField(b'x', Ty('int8'), 0, 0, annotations=[Ann(annotate.nullable)]),
            SlotField(b'y', Ty('int8'), 1, 0, annotations=[Ann(annotate.key, b'')])],
            annotations=[Ann(annotate.key, b'x, y')])]
        r = quietly(data, mode, True, ns)
        f = r.get_node(1).get_struct_fields()
        if k == 0:
            return r.has_annotation(1, annotate.key)
        if k == 1:
            return r.has_annotation(1, annotate.nullable)
        if k == 2:
            return r.get_annotation(1, annotate.key)
        if k == 3:
            return r.has_annotation(r.get_node(1), annotate.key)
        if k == 4:
            return r.has_annotation(f[0], annotate.nullable)
        if k == 5:
            return r.has_annotation(f[1], annotate.nullable)
        if k == 6:
            return r.has_annotation(f[0], annotate.key)
        if k == 8:
            return r.get_annotation(f[0], annotate.nullable)
        if k == 9:
            return r.get_annotation(f[1], annotate.key)
        return r.has_annotation(module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int8'), 0, 0)])],
                                       mode).S, annotate.key)


class annotation_missing:
    """get_annotation() of an annotation that is not there is a KeyError"""
    prop = 'C26'
    cases = ('py', 'pyx')

    def spec(mode):
        raise KeyError

    def impl(mode):
        r = quietly(data, mode, True, nodes())
        return r.get_annotation(1, annotate.key)


KINDS = ((0, 'void', '', 0), (1, 'bool', 'b', 2), (2, 'int8', 'b', 2), (3, 'int16', 'h', 2), (4, 'int32', 'i', 4),
         (5, 'int64', 'q', 8), (6, 'uint8', 'B', 2), (7, 'uint16', 'H', 2), (8, 'uint32', 'I', 4),
         (9, 'uint64', 'Q', 8), (15, 'enum', 'H', 2))
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'q': 8, 'Q': 8}


class values:
    """the value of an annotation is the one that is stored, as the Python object of its type"""
    prop = 'C26'
    cases = KINDS

    def spec(tag, kind, fmt, off, s: 'capnpy.struct_:Struct'):
        s = wf(s)
        requires(field(s, 'H', 0, 2) == tag)
        if kind == 'void':
            return None
        v = field(s, fmt, off, SIZES[fmt])
        if kind == 'bool':
            return (v & 1) != 0
        return v

    def impl(tag, kind, fmt, off, s):
        return view(schema.Value, s).as_pyobj()
