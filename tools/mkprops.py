"""writes /verif/properties.jsonl (the prose lives here so that it is easy to edit)"""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'Reading never leaves the message buffer',
  'Whatever bytes a message contains and whatever offset, index or size is asked for, reading a primitive, text, data, pointer or list item, hashing text in place, and following far pointers either raises an exception or uses only bytes inside the buffer of that message. '
  'A raw (unchecked, compiled) memory access outside the buffer never happens, and a text or data whose bytes would not be entirely inside the buffer is reported as an error instead of being shortened.',
  ['inputs'], 'every message content, every offset and size a pointer word can encode, both build variants',
  'tests read a handful of well-formed buffers; the out-of-range values are a 2^64 space and an overread of a few bytes does not crash',
  ['capnpy/segment/base.pyx', 'capnpy/segment/segment.py', 'capnpy/segment/base.py', 'capnpy/_hash.pyx', 'capnpy/packing.pyx', 'capnpy/list.py'],
  [('bounds checks before C loads', 'capnpy/segment/base.pyx check_bounds'), ('text slicing', 'capnpy/segment/segment.py read_str'), ('substring hash', 'capnpy/_hash.pyx strhash')],
  ['value or exception of every read accessor'])
prop('C02', 'Building and copying write only inside allocated space',
  'Every byte written while a message is being built or while an object is deep-copied into it lands inside the space that was allocated for it in the output buffer, and freshly allocated space is zero. '
  'Growing the output buffer keeps what was written and never leaves a stale address in use, and a source object copied from an untrusted message can neither make the copy read outside the source buffer nor write outside the space allocated for it.',
  ['inputs', 'histories'], 'every sequence of builder operations and every source message handed to a deep copy, both build variants',
  'a heap overflow of a few bytes does not fail a test, and the malformed sources that trigger it are not among the test messages',
  ['capnpy/segment/builder.pyx', 'capnpy/segment/builder.py', 'capnpy/segment/_copy_pointer.pyx', 'capnpy/segment/_copy_pointer.h', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/_copy_list.py'],
  [('allocation and growth', 'capnpy/segment/builder.pyx SegmentBuilder'), ('bounds checks of the copier', 'capnpy/segment/_copy_pointer.h'), ('list payload allocation', 'capnpy/segment/_copy_list.py')],
  ['bytes of the produced message', 'exceptions of a deep copy'])
prop('C03', 'Pointer words are encoded and decoded by the Cap\'n Proto layout',
  'Decoding any 64-bit pointer word yields the kind, signed offset, section sizes, element size, element count, landing pad and target that the Cap\'n Proto encoding assigns to its bits, and encoding any in-range combination of them yields the word that decodes back to it. '
  'The compiled and the pure-Python implementation, at C level and at Python level, agree on every word.',
  ['inputs'], 'all 2^64 words and all in-range field values, in four implementations',
  'tests check a few words; sign extension and mask errors show only for extreme offsets or sizes',
  ['capnpy/ptr.py', 'capnpy/ptr.pyx', 'capnpy/ptr.pxd', 'capnpy/ptr.h'],
  [('C macros', 'capnpy/ptr.h'), ('pure Python twin', 'capnpy/ptr.py'), ('wrappers', 'capnpy/ptr.pyx')],
  ['return values of the pointer functions'])
prop('C04', 'Each primitive type has one wire format on every path',
  'A value of a primitive type is read and written with the width, signedness and little-endian byte order that its Cap\'n Proto type prescribes, wherever it occurs (struct field, list item, builder, raw buffer helper) and in both build variants. '
  'Writing a Python value outside the range of the type raises an exception and never stores a truncated value.',
  ['inputs', 'configurations'], 'every primitive type, every value, every access path, both build variants',
  'tests use small positive values for most types, on which a wrong width or signedness is invisible',
  ['capnpy/type.py', 'capnpy/segment/base.py', 'capnpy/segment/base.pyx', 'capnpy/segment/builder.py', 'capnpy/segment/builder.pyx', 'capnpy/packing.py', 'capnpy/packing.pyx', 'capnpy/list.py'],
  [('format tables', 'capnpy/type.py'), ('typed loads', 'capnpy/segment/base.pyx'), ('typed stores', 'capnpy/segment/builder.pyx'), ('buffer helpers', 'capnpy/packing.pyx')],
  ['value read back', 'bytes written', 'exception type'])
prop('C05', 'Far pointers are transparent',
  'A struct, list, text, data or untyped pointer reached through a far pointer (one-word or two-word landing pad, any segment of a multi-segment message) is the same object, in the same segment, at the same position and with the same sizes as the word in the landing pad describes. '
  'Every kind of pointer reader follows far pointers; none takes the far pointer word itself for the object.',
  ['inputs'], 'every message with any number of segments and any placement of landing pads',
  'only a few hand-made multi-segment messages are tested, each through one or two accessors',
  ['capnpy/segment/base.py', 'capnpy/segment/base.pyx', 'capnpy/segment/segment.py', 'capnpy/blob.py', 'capnpy/struct_.py', 'capnpy/list.py', 'capnpy/anypointer.py'],
  [('far pointer resolution', 'capnpy/segment/segment.py MultiSegment.read_far_ptr'), ('pointer readers', 'capnpy/struct_.py, capnpy/blob.py, capnpy/list.py, capnpy/anypointer.py')],
  ['object returned by pointer field accessors'])
prop('C06', 'Structs of another schema version read as the format demands',
  'When the data or pointer section found in a message is shorter than the schema expects, every field that lies outside it reads as its default (zero bits) or as a null pointer, and every field inside it reads its own bytes; a longer section changes nothing. '
  'List elements are located with the element size found in the message, not the one in the schema.',
  ['inputs', 'programs'], 'every schema field position against every pair of section sizes in a message',
  'needs pairs of schema versions; tests contain two or three',
  ['capnpy/struct_.py', 'capnpy/struct_.pxd', 'capnpy/list.py', 'capnpy/blob.py', 'capnpy/compiler/field.py'],
  [('section size tests', 'capnpy/struct_.py _read_primitive/_read_fast_ptr'), ('element stride', 'capnpy/list.py StructItemType'), ('generated accessors', 'capnpy/compiler/field.py')],
  ['values of the field accessors'])
prop('C07', 'Union members are only readable when they are the active one',
  'Every generated way of reading a union member raises when another member is active and returns the member when it is active; the active member is exactly the one whose discriminant is stored, and the membership tests agree with it. '
  'A constructor for a union stores the discriminant of the member it was given (0, the first member, if it was given none), and rejects more than one member of the same union.',
  ['programs', 'inputs'], 'every union in every schema, every field type, every discriminant value found in a message',
  'the generator has one emitter per field type and tests cover some of them',
  ['capnpy/compiler/field.py', 'capnpy/compiler/struct_.py', 'capnpy/compiler/structor.py', 'capnpy/struct_.py', 'capnpy/struct_.pxd'],
  [('union guard', 'capnpy/compiler/field.py ensure_union'), ('tag accessors', 'capnpy/compiler/struct_.py'), ('tag stores', 'capnpy/compiler/structor.py')],
  ['generated accessors', 'generated constructors'])
prop('C08', 'Message streams are framed exactly and truncation is reported',
  'Loading a message consumes exactly the bytes of its header, padding and segments and hands out exactly the segment bytes, for any number and size of segments the loader accepts; dumping produces a stream which loads to the same segments. '
  'A stream that ends early, or whose header is not acceptable, raises; no size found in a header is ever silently wrapped or shortened.',
  ['inputs', 'fault_sequences'], 'every segment count, every segment size, every truncation point',
  'tests load a few small messages, far from the 32-bit limits and from odd/even padding combinations',
  ['capnpy/message.py', 'capnpy/message.pxd', 'capnpy/filelike.py', 'capnpy/filelike.pxd'],
  [('header parsing', 'capnpy/message.py'), ('short read checks', 'capnpy/message.py')],
  ['bytes consumed from the stream', 'segments of the loaded message', 'exceptions'])
prop('C09', 'Messages are immutable: reading has no side effects',
  'No operation on a message, struct, list, blob or pointer obtained from a message changes a byte of the message, the object it is called on, or any state shared between objects; copying and converting operations work on storage of their own. '
  'Two readers (in two threads, or one after the other) therefore never influence one another.',
  ['histories', 'schedules'], 'every sequence or interleaving of read-side operations',
  'a hidden write shows only in a second access that happens to depend on it',
  ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/blob.py', 'capnpy/segment/base.pyx', 'capnpy/segment/segment.py', 'capnpy/anypointer.py', 'capnpy/message.py'],
  [('no stores in read-side functions', 'all read-side modules')],
  ['results of repeated reads', 'bytes of the source message'])
prop('C10', 'Equal structs hash equally and in-place hashing matches Python',
  'Whenever two structs or lists compare equal they have the same hash, and a struct for which comparison and hashing were requested compares by, and only by, the declared key fields. '
  'The fast in-place hashes of text, integers, floats, booleans, null and tuples equal the hash of the Python value that the corresponding accessor returns.',
  ['inputs', 'programs'], 'all values of the key fields, both build variants',
  'hash equalities are sampled on short ASCII strings and small integers only',
  ['capnpy/_hash.pyx', 'capnpy/_hash.py', 'capnpy/_hash_cpython.c', 'capnpy/_hash.h', 'capnpy/struct_.py', 'capnpy/list.py', 'capnpy/blob.py', 'capnpy/compiler/struct_.py'],
  [('in-place hashes', 'capnpy/_hash.pyx'), ('generated fast hash', 'capnpy/compiler/struct_.py _emit_fash_hash'), ('comparison', 'capnpy/struct_.py')],
  ['hash()', '==, !='])
prop('C11', 'Constructors store what accessors read',
  'For every field of every struct the compiler generates, the value given to the constructor is stored exactly where, and in exactly the representation in which, the generated accessor of the same field reads it, including the default value encoding, booleans sharing a byte, groups and nullable fields. '
  'The object built has the section sizes of the schema and nothing is stored in storage that belongs to another field.',
  ['programs', 'inputs'], 'every schema field: each type, offset, default and nesting, in both generated variants',
  'the round trip is tested for a few dozen fields; offsets, defaults and widths are free parameters of a schema',
  ['capnpy/compiler/field.py', 'capnpy/compiler/structor.py', 'capnpy/compiler/fieldtree.py', 'capnpy/segment/builder.pyx', 'capnpy/segment/builder.py'],
  [('accessor templates', 'capnpy/compiler/field.py'), ('constructor templates', 'capnpy/compiler/structor.py')],
  ['generated source', 'value read back'])
prop('C12', 'The compiler handles every schema type or refuses it',
  'For each type a Cap\'n Proto schema can give to a field, a list element or a constant, the code generator emits an accessor (and constructor support) of that very type, or it stops with an explicit error; no type falls through to code for another type or to no code at all. '
  'The same selection is made in the Cython and in the pure-Python output.',
  ['programs'], 'every type constructor of the schema language in every position',
  'tests use the types their schemas happen to contain',
  ['capnpy/compiler/field.py', 'capnpy/compiler/misc.py', 'capnpy/compiler/structor.py', 'capnpy/compiler/module.py', 'capnpy/schema.py'],
  [('field dispatch', 'capnpy/compiler/field.py _emit'), ('list element dispatch', 'capnpy/compiler/misc.py'), ('constructor dispatch', 'capnpy/compiler/structor.py')],
  ['generated source'])
prop('C13', 'Pickling and raw dumps reproduce the object',
  'Unpickling a pickled struct or segment, and loading a raw dump of a struct, give an object of the same type which reads every field identically; the parts saved and the parts restored agree one by one, in order and in representation. '
  'Both work for an object in the middle of a larger, possibly multi-segment, message; lists refuse pickling with a TypeError instead of saving part of themselves.',
  ['inputs', 'histories'], 'every struct position and size inside any message',
  'tests dump a couple of objects located at the start of their buffers',
  ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/blob.py', 'capnpy/message.py'],
  [('raw dumps', 'capnpy/struct_.py _raw_dumps/_raw_loads'), ('reduce', 'capnpy/struct_.py __reduce__')],
  ['object after the round trip'])
prop('C14', 'Compiler options apply exactly where and as declared',
  'The setting in force for a field or struct is the nearest one (field, struct, enclosing scope, file, command line/default) that sets it, every option declared in the option schema is taken from one place by all generators, and setting an option on one element never changes the setting seen by another element. '
  'Options given programmatically, on the command line and through the import hook reach the generator unchanged.',
  ['configurations', 'programs'], 'every combination of options at every nesting level',
  'the combinations multiply; tests set one option at one level at a time',
  ['capnpy/annotate_extended.py', 'capnpy/annotate.py', 'capnpy/compiler/module.py', 'capnpy/compiler/compiler.py', 'capnpy/compiler/distutils.py', 'capnpy/__main__.py', 'capnpy/compiler/request.py'],
  [('option merge', 'capnpy/annotate_extended.py Options.combine'), ('option lookup', 'capnpy/compiler/module.py options')],
  ['generated source for a given set of options'])
prop('C15', 'Loading a schema does not disturb the process or other schemas',
  'Compiling and loading a schema leaves the interpreter-wide state (module table, import hooks, working directory, environment) as it was except for the modules it is meant to add, whether it succeeds or fails. '
  'Loading two different schemas gives modules which do not share or overwrite one another\'s definitions, and loading a schema again through the same compiler gives the module of the first load.',
  ['histories', 'fault_sequences'], 'every sequence of loads, including failing ones',
  'tests load schemas in fresh directories and rarely after a failure',
  ['capnpy/compiler/compiler.py', 'capnpy/compiler/util.py', 'capnpy/util.py', 'capnpy/__init__.py'],
  [('module registration', 'capnpy/compiler/compiler.py'), ('extension import', 'capnpy/compiler/compiler.py _compile_pyx')],
  ['sys.modules', 'returned modules'])
prop('C16', 'Buffered streams neither lose, duplicate nor reorder bytes',
  'The sequence of bytes handed out by the buffered reader, by any mix of sized reads and line reads, is the sequence received from the underlying stream or socket, each byte once; a short result means end of stream. '
  'A line read returns everything up to and including the first newline, and file-like adapters forward sizes and results unchanged.',
  ['histories', 'fault_sequences'], 'every mix of read sizes and every chunking by the underlying stream',
  'chunk boundaries relative to read sizes are a product space; tests use one or two chunkings',
  ['capnpy/buffered.py', 'capnpy/buffered.pxd', 'capnpy/filelike.py', 'capnpy/filelike.pxd'],
  [('buffer refill', 'capnpy/buffered.py'), ('adapter', 'capnpy/filelike.py')],
  ['bytes returned'])
prop('C17', 'Compactness decisions are exact',
  'An object is treated as compact only if its whole pointed-to contents lie, in order and without holes, in one contiguous range starting at the object, and the end of that range is computed exactly. '
  'A byte-wise copy or dump taken because of that decision is equal to the deep copy; for everything else the deep copy is used.',
  ['inputs'], 'every object graph in every message, well-formed or not',
  'tests contain a few compact and non-compact examples per pointer kind',
  ['capnpy/segment/endof.py', 'capnpy/struct_.py', 'capnpy/list.py', 'capnpy/segment/builder.py', 'capnpy/segment/builder.pyx'],
  [('end-of computation', 'capnpy/segment/endof.py'), ('use of the sentinel', 'capnpy/struct_.py compact/_split')],
  ['result of compact(), dumps()'])
prop('C18', 'Lists behave as immutable Python sequences',
  'Indexing, negative indexing, slicing, iteration, length, equality and membership of a list read from a message behave as on the Python list of the same items, including the exceptions for indexes out of range. '
  'Item i is located at the start of the list plus i times the element stride, for every element type including bits, structs, pointers, text, data and nested lists.',
  ['inputs'], 'every list length, element type, index and slice',
  'tests index a few positions of short lists',
  ['capnpy/list.py'],
  [('index normalisation', 'capnpy/list.py __getitem__'), ('item location', 'capnpy/list.py item types')],
  ['items and exceptions'])
prop('C19', 'Enum values round-trip, known or unknown',
  'An enum field or list item reads as the member with the stored ordinal, and an ordinal not in the schema (any 16-bit unsigned value) reads as an unknown value which still carries that ordinal; no ordinal ever reads as a different member. '
  'Writing an enum value stores its ordinal unchanged.',
  ['inputs'], 'all 65536 ordinals, every enum',
  'tests use the declared ordinals and one unknown one',
  ['capnpy/enum.py', 'capnpy/list.py', 'capnpy/compiler/field.py', 'capnpy/compiler/structor.py', 'capnpy/segment/base.py'],
  [('ordinal lookup', 'capnpy/enum.py _new'), ('enum accessor', 'capnpy/compiler/field.py _emit_enum'), ('enum items', 'capnpy/list.py EnumItemType')],
  ['enum values read and written'])
prop('C20', 'Nullable fields are None exactly when their null flag is set',
  'A field declared nullable reads as None exactly when its null flag is set and otherwise as its value, whatever the value; constructing with None sets the flag and a zero value, constructing with a value clears it. '
  'Declarations that cannot be nullable are rejected with an explanatory error.',
  ['programs', 'inputs'], 'every nullable field, every value including zero',
  'tests have a few nullable integer fields',
  ['capnpy/annotate_extended.py', 'capnpy/compiler/field.py', 'capnpy/compiler/fieldtree.py', 'capnpy/compiler/structor.py'],
  [('nullable accessor', 'capnpy/compiler/field.py'), ('nullable constructor', 'capnpy/compiler/fieldtree.py')],
  ['values read and stored'])
prop('C21', 'Deep copies are faithful',
  'A deep copy of any well-formed struct, list, text or data (from any segment, with far pointers, with short or long sections, with any element size) has the same contents, element by element and pointer by pointer, and is made of near pointers within the new message. '
  'The compiled and the pure-Python copier produce the same bytes, and a null pointer is copied as a null pointer.',
  ['inputs'], 'every well-formed object graph',
  'the copier has a branch per pointer kind and element size; tests have one example for most',
  ['capnpy/segment/_copy_pointer.py', 'capnpy/segment/_copy_pointer.pyx', 'capnpy/segment/_copy_pointer.h', 'capnpy/segment/_copy_list.py', 'capnpy/segment/builder.pyx', 'capnpy/segment/builder.py'],
  [('pointer copier', 'capnpy/segment/_copy_pointer.pyx, capnpy/segment/_copy_pointer.py'), ('list writer', 'capnpy/segment/_copy_list.py')],
  ['bytes of the copy'])
prop('C22', 'Text and data are exact byte strings with one terminator convention',
  'A text field stores its bytes followed by exactly one zero byte counted in the pointer, a data field stores exactly its bytes; reading gives back exactly the stored bytes without the terminator, a null pointer gives the declared default or None, and unicode text is the UTF-8 decoding of the same bytes. '
  'This holds for struct fields, list items and text converted from bytes or unicode arguments.',
  ['inputs'], 'every byte string and every text position',
  'lengths 0, 7, 8, embedded zero bytes and nulls in each position are sampled at best once',
  ['capnpy/blob.py', 'capnpy/struct_.py', 'capnpy/list.py', 'capnpy/segment/base.py', 'capnpy/segment/segment.py', 'capnpy/segment/builder.py', 'capnpy/segment/builder.pyx'],
  [('text readers', 'capnpy/segment/segment.py'), ('text allocation', 'capnpy/segment/builder.pyx alloc_text/alloc_data')],
  ['bytes stored and read'])
prop('C23', 'Work on a hostile message is bounded',
  'Traversing, copying, comparing or printing any message terminates with a result or an exception, using time and memory bounded by a fixed multiple of the message size, even if its pointers form cycles or overlap.',
  ['inputs'], 'every message, including cyclic and amplifying ones',
  'needs adversarial messages; tests contain none',
  ['capnpy/segment/_copy_pointer.pyx', 'capnpy/segment/endof.py', 'capnpy/struct_.py'],
  [('recursion over pointers', 'capnpy/segment/_copy_pointer.pyx, capnpy/segment/endof.py')],
  ['termination', 'memory'])
prop('C24', 'Short representations and decode show the whole value, in capnp syntax',
  'shortrepr() of a struct writes, in the order of the declaration and under their capnp names, every non-pointer field and every pointer field that is not null, and of a union exactly the member that is set; groups, structs and lists are written recursively. '
  'Integers are written in decimal, bools as true and false, void as void, enumerants by their capnp names, and texts between double quotes with backslashes, quotes and newlines escaped, so that the capnp tool reads the same value back; what is written is the value that the accessors give, with the defaults of the schema. '
  'capnpy decode writes this for every message of a stream and ends normally at its end, and a stream that is cut inside of a message is an error. The digits of floating point numbers and the escapes of data are excluded.',
  ['inputs', 'programs'], 'every field layout and every value of the supported kinds, streams of any content',
  'tests compare the representation of a few values; characters that need an escape, null items, renamed fields and enumerants, and defaults are rarely combined',
  ['capnpy/compiler/struct_.py', 'capnpy/list.py', 'capnpy/util.py', 'capnpy/enum.py', 'capnpy/__main__.py'],
  [('generated shortrepr', 'capnpy/compiler/struct_.py _emit_repr'), ('items of lists', 'capnpy/list.py item_repr'), ('string escapes', 'capnpy/util.py'), ('decode', 'capnpy/__main__.py')],
  ['obj.shortrepr()', 'output of capnpy decode'])
prop('C25', 'Compiling a schema is deterministic',
  'Compiling the same request with the same options gives the same module, except for the comment with the date: nothing that changes between runs of the interpreter (hash randomisation, object addresses, the order of sets, clocks, random numbers, process ids) reaches the generated names, ids, order or text.',
  ['programs', 'environment'], 'every schema and every run of the compiler',
  'a test runs the compiler once, with one hash seed; a dependency on it shows up as an irreproducible build or as a collision for one seed in thousands',
  ['capnpy/compiler/module.py', 'capnpy/compiler/request.py', 'capnpy/compiler/node.py', 'capnpy/compiler/struct_.py', 'capnpy/compiler/structor.py', 'capnpy/compiler/fieldtree.py', 'capnpy/compiler/misc.py', 'capnpy/schema_extended.py'],
  [('generator', 'capnpy/compiler'), ('ids of virtual groups', 'capnpy/schema_extended.py from_group_annotation')],
  ['text of the generated module'])
prop('C26', 'Reflection agrees with the schema and with the generated module',
  'For a module with reflection data, get_node(id) and get_node(obj) give the schema node with this id or the one that obj was generated from (a module, a struct, nested struct or enum) and KeyError for ids that are not in the schema; field_name(f) is the name of the attribute of the generated class that reads the field f, whatever the naming options; '
  'has_annotation and get_annotation find exactly the annotations present on nodes and fields, get_annotation gives the stored value as the Python object of its type and KeyError if there is none.',
  ['programs', 'inputs'], 'every schema, naming option and annotation value',
  'tests look at one schema; renamed fields, nested nodes and the types of annotation values are not combined',
  ['capnpy/reflection.py', 'capnpy/compiler/module.py', 'capnpy/compiler/misc.py', 'capnpy/compiler/request.py'],
  [('lookup', 'capnpy/reflection.py ReflectionData'), ('names', 'capnpy/compiler/module.py py_field_name'), ('values', 'capnpy/compiler/misc.py Value.as_pyobj')],
  ['results of ReflectionData methods'])
prop('C27', 'Extending generated classes adds exactly what the extension says',
  'After @C.__extend__ on a class body, every attribute of the body (methods, properties, special methods, plain attributes, replacements of attributes that C has) is an attribute of C and of all its objects, whether they were made before or after; the other attributes of C, and all other classes (its base classes, the other classes of the schema), are unchanged, and the decorator returns C. '
  'The file NAME_extended.py which belongs to the schema (beside the schema file when loaded dynamically, on sys.path under the name of the module otherwise) and no other is executed, once, in the namespace of the module, when all names of the schema are there.',
  ['programs'], 'every class body, generated class, and layout of extension files',
  'tests extend one class with one method; overriding, special methods, and the search for the file are sampled',
  ['capnpy/util.py', 'capnpy/blob.py', 'capnpy/compiler/request.py'],
  [('extend', 'capnpy/util.py extend, magic_setattr'), ('extension file', 'capnpy/util.py extend_module_maybe, find_module'), ('generated call', 'capnpy/compiler/request.py emit')],
  ['attributes of the classes', 'code executed by extend_module_maybe'])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(
    ''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
