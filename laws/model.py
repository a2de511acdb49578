"""A model of the capnp schema objects that the generator reads (instances of
subclasses of the real schema classes, so that the methods the compiler hangs on
them are the real ones), with parts -- offsets, sizes, default values -- that may
be symbolic.  Used by the laws about generated code."""
from capnpy import schema, annotate
from capnpy.compiler.module import ModuleGenerator

Tag = schema.Type.__tag__
KINDS = ('void', 'bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
         'float32', 'float64', 'text', 'data', 'list', 'enum', 'struct', 'interface', 'anyPointer')
NODISC = 0xffff


class Ty(schema.Type):
    list = None
    enum = None
    struct = None
    interface = None
    anyPointer = None

    def __init__(self, kind, elem=None, node=0):
        self.kind = kind
        self.list = Part(elementType=elem)
        self.enum = Part(typeId=node)
        self.struct = Part(typeId=node)
        self.interface = Part(typeId=node)
        self.anyPointer = Part()

    def which(self):
        return Tag(KINDS.index(self.kind))

    def __which__(self):
        return KINDS.index(self.kind)

    def _read_int16(self, off):
        return KINDS.index(self.kind)

    def _read_uint16(self, off):
        return KINDS.index(self.kind)


class Part(object):
    def __init__(self, elementType=None, typeId=0):
        self.elementType = elementType
        self.typeId = typeId


class Val(schema.Value):
    void = None
    bool = None
    int8 = None
    int16 = None
    int32 = None
    int64 = None
    uint8 = None
    uint16 = None
    uint32 = None
    uint64 = None
    float32 = None
    float64 = None
    text = None
    data = None
    list = None
    enum = None
    struct = None
    interface = None
    anyPointer = None

    def __init__(self, kind, v):
        self.kind = kind
        setattr(self, kind, v)

    def which(self):
        return schema.Value.__tag__(KINDS.index(self.kind))

    def __which__(self):
        return KINDS.index(self.kind)

    def _read_int16(self, off):
        return KINDS.index(self.kind)

    def _read_uint16(self, off):
        return KINDS.index(self.kind)


class SlotPart(schema.Field_slot):
    offset = None
    type = None
    defaultValue = None
    hadExplicitDefault = None

    def __init__(self, ty, offset, default, explicit):
        self.type = ty
        self.offset = offset
        self.defaultValue = Val(ty.kind, default)
        self.hadExplicitDefault = explicit


class GroupPart(schema.Field_group):
    typeId = None

    def __init__(self, typeId):
        self.typeId = typeId


class Ordinal(schema.Field_ordinal):
    def __init__(self):
        self.implicit = None

    def is_implicit(self):
        return True


class SlotField(schema.Field__Slot):
    name = None
    codeOrder = None
    annotations = None
    discriminantValue = None
    slot = None
    group = None
    ordinal = None

    def __init__(self, name, ty, offset=0, default=None, explicit=False, disc=NODISC, annotations=None):
        self.name = name
        self.codeOrder = 0
        self.annotations = annotations
        self.discriminantValue = disc
        self.slot = SlotPart(ty, offset, default, explicit)
        self.ordinal = Ordinal()

    def which(self):
        return schema.Field.__tag__(0)

    def __which__(self):
        return 0

    def is_slot(self):
        return True

    def is_group(self):
        return False


class GroupField(schema.Field__Group):
    name = None
    codeOrder = None
    annotations = None
    discriminantValue = None
    slot = None
    group = None
    ordinal = None

    def __init__(self, name, typeId, disc=NODISC, annotations=None):
        self.name = name
        self.codeOrder = 0
        self.annotations = annotations
        self.discriminantValue = disc
        self.group = GroupPart(typeId)
        self.ordinal = Ordinal()

    def which(self):
        return schema.Field.__tag__(1)

    def __which__(self):
        return 1

    def is_slot(self):
        return False

    def is_group(self):
        return True


class StructPart(schema.Node_struct):
    dataWordCount = None
    pointerCount = None
    preferredListEncoding = None
    isGroup = None
    discriminantCount = None
    discriminantOffset = None
    fields = None

    def __init__(self, dw, pc, fields, isGroup, dc, do):
        self.dataWordCount = dw
        self.pointerCount = pc
        self.fields = fields
        self.isGroup = isGroup
        self.discriminantCount = dc
        self.discriminantOffset = do


class StructNode(schema.Node__Struct):
    id = None
    displayName = None
    displayNamePrefixLength = None
    scopeId = None
    nestedNodes = None
    annotations = None
    struct = None

    def __init__(self, id, name, scope, dw, pc, fields, isGroup=False, dc=0, do=0, prefix=b'', annotations=None):
        self.id = id
        self.displayName = prefix + name
        self.displayNamePrefixLength = len(prefix)
        self.scopeId = scope
        self.annotations = annotations
        self.struct = StructPart(dw, pc, fields, isGroup, dc, do)

    def which(self):
        return schema.Node.__tag__.struct

    def __which__(self):
        return 1

    def is_struct(self):
        return True

    def is_file(self):
        return False

    def is_enum(self):
        return False


class EnumPart(schema.Node_enum):
    enumerants = None

    def __init__(self, enumerants):
        self.enumerants = enumerants


class Item(schema.Enumerant):
    name = None
    codeOrder = None
    annotations = None

    def __init__(self, name, order):
        self.name = name
        self.codeOrder = order


class EnumNode(schema.Node__Enum):
    id = None
    displayName = None
    displayNamePrefixLength = None
    scopeId = None
    annotations = None
    enum = None

    def __init__(self, id, name, scope, items, prefix=b''):
        self.id = id
        self.displayName = prefix + name
        self.displayNamePrefixLength = len(prefix)
        self.scopeId = scope
        self.enum = EnumPart([Item(n, i) for i, n in enumerate(items)])

    def which(self):
        return schema.Node.__tag__.enum

    def __which__(self):
        return 2

    def is_struct(self):
        return False

    def is_file(self):
        return False

    def is_enum(self):
        return True


class FileNode(schema.Node):
    id = None
    displayName = None
    displayNamePrefixLength = None
    scopeId = None
    annotations = None

    def __init__(self, id, name, annotations=None):
        self.id = id
        self.displayName = name
        self.displayNamePrefixLength = 0
        self.scopeId = 0
        self.annotations = annotations

    def which(self):
        return schema.Node.__tag__.file

    def __which__(self):
        return 0

    def is_struct(self):
        return False

    def is_file(self):
        return True

    def is_enum(self):
        return False


class AnyStruct:
    """an AnyPointer to a struct"""

    def __init__(self, value):
        self.value = value

    def as_struct(self, cls):
        return self.value


class AnnotationValue(schema.Value):
    text = None

    struct = None

    def __init__(self, value):
        if isinstance(value, annotate.Options):
            self.struct = AnyStruct(value)
        else:
            self.text = value

    def which(self):
        tag = schema.Value.__tag__
        if self.text is not None:
            return tag.text
        return tag.struct if self.struct is not None else tag.void

    def is_text(self):
        return self.text is not None

    def is_struct(self):
        return self.struct is not None

    def is_void(self):
        return self.text is None and self.struct is None


class Ann(schema.Annotation):
    id = None
    value = None

    def __init__(self, cls, text=None):
        self.id = cls.__capnpy_id__
        self.value = AnnotationValue(text)


class Requested(schema.CodeGeneratorRequest_RequestedFile):
    id = None
    filename = None
    imports = None

    def __init__(self, id, filename):
        self.id = id
        self.filename = filename
        self.imports = []


class Request(schema.CodeGeneratorRequest):
    nodes = None
    requestedFiles = None

    def __init__(self, nodes, files):
        self.nodes = nodes
        self.requestedFiles = files


class Opts(annotate.Options):
    version_check = None
    convert_case = None
    text_type = None
    include_reflection_data = None

    def __init__(self, version_check, convert_case, text_type, include_reflection_data):
        self.version_check = version_check
        self.convert_case = convert_case
        self.text_type = text_type
        self.include_reflection_data = include_reflection_data


def options(text, convert=True):
    no = annotate.BoolOption.false
    yes = annotate.BoolOption.true
    return Opts(no, yes if convert else no,
                annotate.TextType.unicode if text == 'unicode' else annotate.TextType.bytes, no)


FILE = 0x1000


class Placed(Request):
    """a request that is the struct of this place of this segment"""
    _seg = None
    _data_offset = None
    _data_size = None
    _ptrs_size = None


class PlacedOpts(Opts):
    _seg = None
    _data_offset = None
    _data_size = None
    _ptrs_size = None


def place(obj, s):
    obj._seg = s._seg
    obj._data_offset = s._data_offset
    obj._data_size = s._data_size
    obj._ptrs_size = s._ptrs_size
    return obj


def reflecting(nodes, mode, s, t):
    """the module, with reflection data: the request is the struct s, the options are the struct t"""
    no = annotate.BoolOption.false
    yes = annotate.BoolOption.true
    req = place(Placed([FileNode(FILE, b'f.capnp')] + nodes, [Requested(FILE, b'f.capnp')]), s)
    opts = place(PlacedOpts(no, yes, annotate.TextType.bytes, yes), t)
    return generated(quietly(ModuleGenerator, req, mode == 'pyx', False, opts, '0.0'))


def generator(nodes, mode, opts, annotations=None):
    req = Request([FileNode(FILE, b'f.capnp', annotations)] + nodes, [Requested(FILE, b'f.capnp')])
    return quietly(ModuleGenerator, req, mode == 'pyx', False, opts, '0.0')


def module(nodes, mode, text='bytes', convert=True, annotations=None):
    """the Python module that capnpy generates for a schema file with these nodes"""
    return generated(generator(nodes, mode, options(text, convert), annotations))


class Import:
    """an import of a schema file"""

    def __init__(self, id, name):
        self.id = id
        self.name = name


def importing(nodes, files, imports, mode, standalone=False, text='bytes', names=None):
    """the module of a schema file with these nodes; files: (id, path, nodes) of the files it imports;
    imports: what an import of this path gives (names: the paths as written in the import)"""
    all = [FileNode(FILE, b'f.capnp')]
    req = Requested(FILE, b'f.capnp')
    for id, path, more in files:
        all = all + [FileNode(id, path)] + more
        req.imports.append(Import(id, b'/' + path))
    g = quietly(ModuleGenerator, Request(all + nodes, [req]), mode == 'pyx', standalone, options(text), '0.0')
    return generated(g, imports=imports)


def struct(mode, fields, dw=1, pc=1, dc=0, do=0, text='bytes', more=None):
    """class S, with these fields"""
    nodes = [StructNode(1, b'S', FILE, dw, pc, fields, False, dc, do)]
    if more is not None:
        nodes = nodes + more
    return module(nodes, mode, text).S


class ConstPart(schema.Node_const):
    type = None
    value = None

    def __init__(self, ty, value):
        self.type = ty
        self.value = value


class ConstNode(schema.Node__Const):
    id = None
    displayName = None
    displayNamePrefixLength = None
    scopeId = None
    annotations = None
    const = None

    def __init__(self, id, name, scope, ty, value, prefix=b''):
        self.id = id
        self.displayName = prefix + name
        self.displayNamePrefixLength = len(prefix)
        self.scopeId = scope
        self.const = ConstPart(ty, Val(ty.kind, value))

    def which(self):
        return schema.Node.__tag__.const

    def __which__(self):
        return 4

    def is_struct(self):
        return False

    def is_file(self):
        return False

    def is_enum(self):
        return False


class InterfaceNode(schema.Node):
    """what the compiler does not support"""
    id = None
    displayName = None
    displayNamePrefixLength = None
    scopeId = None
    annotations = None

    def __init__(self, id, name, scope, prefix=b''):
        self.id = id
        self.displayName = prefix + name
        self.displayNamePrefixLength = len(prefix)
        self.scopeId = scope

    def which(self):
        return schema.Node.__tag__.interface

    def __which__(self):
        return 3

    def is_struct(self):
        return False

    def is_file(self):
        return False

    def is_enum(self):
        return False
