"""C27: extending the classes of a schema"""
from model import module, StructNode, EnumNode, ConstNode, SlotField, Ty, FILE
from c11_groups import view, wf, field

extend = repo('capnpy.util:extend')


class Target:
    x = 1
    y = 2

    def f(self):
        return 'f'


class Body:
    """doc of the body"""
    y = 3
    z = 4

    def g(self, k):
        return self.f(), k, self.y

    @property
    def p(self):
        return self.x

    def __len__(self):
        return 7


class extend_class:
    """the attributes of the body are added to the class, the others stay, and the class is what the decorator returns"""
    prop = 'C27'

    def spec(k: 'int'):
        return True, 1, 3, 4, 'f', ('f', k, 3), 1, 7

    def impl(k):
        old = Target()
        C = extend(Target)(Body)
        return C is Target, C.x, C.y, C.z, old.f(), old.g(k), old.p, len(old)


class extend_generated:
    """... of a generated class, through its __extend__"""
    prop = 'C27'
    cases = ('py', 'pyx')

    def spec(mode, s: 'capnpy.struct_:Struct', k: 'int'):
        s = wf(s)
        return True, field(s, 'q', 0, 8), (field(s, 'q', 0, 8), k)

    def impl(mode, s, k):
        S = module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int64'), 0, 0)])], mode).S

        class More:
            def both(self, k):
                return self.x, k

        C = S.__extend__(More)
        v = view(S, s)
        return C is S, v.x, v.both(k)


class Other:
    x = 5


class extend_others:
    """no other class is changed: neither a base class nor a class of the same schema"""
    prop = 'C27'
    cases = ('py', 'pyx')

    def spec(mode):
        return True, False, False, False

    def impl(mode):
        m = module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int64'), 0, 0)]),
                    StructNode(2, b'T', FILE, 1, 0, [SlotField(b'x', Ty('int64'), 0, 0)])], mode)

        class More:
            extra = 1

        m.S.__extend__(More)
        return (hasattr(m.S, 'extra'), hasattr(m.T, 'extra'), hasattr(repo('capnpy.struct_:Struct'), 'extra'),
                hasattr(repo('capnpy.blob:Blob'), 'extra'))


CALLS = []


def extend_maybe(globals, filename=None, modname=None):
    CALLS.append([n for n in ('S', 'S_T', 'U', 'Color', 'N') if n in globals])


class extension_namespace:
    """the extension module of a schema runs when everything of the schema is there"""
    prop = 'C27'
    track = ()
    mocks = {'capnpy.util.extend_module_maybe': extend_maybe}
    cases = ('py', 'pyx')

    def spec(mode):
        return [['S', 'U', 'Color', 'N']]

    def impl(mode):
        module([StructNode(1, b'S', FILE, 1, 0, [SlotField(b'x', Ty('int64'), 0, 0)]),
                StructNode(2, b'U', FILE, 1, 0, [SlotField(b'x', Ty('int64'), 0, 0)]),
                EnumNode(3, b'Color', FILE, [b'red']),
                ConstNode(4, b'N', FILE, Ty('int64'), 3)], mode)
        return CALLS
