"""What the compiler writes depends on the request and on the options only: nothing that changes from one run to the
next (hashes, addresses, the order of sets, clocks, random numbers) reaches the text of a module.

The rule works on the syntax trees of the compiler and of the parts of capnpy the generator calls while it writes.  A
source is an expression whose value is not a function of the program's input:

    hash(x)             outside of a __hash__ method
    id(x)
    random.*, secrets.*, uuid.uuid1/uuid4, os.urandom, os.getpid, time.*, datetime.now/utcnow/today
    the order of a set  (a set display, comprehension, set() or frozenset(), set operations, and the names and
                        attributes which are assigned one)

The values are followed through the assignments of the function.  It is a violation when one arrives in a sink: an
operand of arithmetic or of string formatting, an argument of a call that is not known to be harmless, an attribute of
an object (ns.x = ...), a returned value.  Sinks for the order of a set are loops that write or accumulate in order,
and conversions to sequences or text; sorted(), min(), len(), membership and set operations do not depend on it.
The comment with the date at the top of a module is the only exception: it is not code."""
import ast

MODULES = ('capnpy.compiler.module', 'capnpy.compiler.request', 'capnpy.compiler.node', 'capnpy.compiler.struct_',
           'capnpy.compiler.structor', 'capnpy.compiler.fieldtree', 'capnpy.compiler.field', 'capnpy.compiler.enum',
           'capnpy.compiler.misc', 'capnpy.compiler.util', 'capnpy.schema_extended', 'capnpy.annotate_extended',
           'capnpy.convert_case', 'capnpy.util')

# functions of the analysed modules which do not take part in writing a module
SKIP = {('capnpy.util', 'extend_module_maybe')}

CLOCKS = ('random.', 'secrets.', 'time.', 'uuid.uuid1', 'uuid.uuid4', 'os.urandom', 'os.getpid', 'os.times',
          'datetime.now', 'datetime.utcnow', 'datetime.today', 'datetime.datetime.now', 'datetime.datetime.utcnow',
          'datetime.datetime.today', 'date.today', 'datetime.date.today', 'tempfile.', 'getpass.', 'socket.')
BARE = {'urandom', 'getpid', 'uuid1', 'uuid4', 'random', 'randint', 'choice', 'shuffle', 'time_ns', 'perf_counter'}
UNORDERED_OK = {'sorted', 'set', 'frozenset', 'len', 'any', 'all', 'sum', 'min', 'max', 'bool', 'isinstance', 'dict.fromkeys'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference', 'copy'}
KEYCALLS = {'get', 'add', 'discard', 'remove', 'setdefault', 'pop', 'has_key', '__contains__'}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


class Scope(object):
    """one function (or the body of a module)"""

    def __init__(self, rule, mod, fn, cls, setattrs):
        self.rule, self.mod, self.fn, self.cls, self.setattrs = rule, mod, fn, cls, setattrs
        self.parent = {}
        for n in ast.walk(fn):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.nodes = list(own_nodes(fn))
        self.sets, self.taint = set(), {}
        self.shadow = {a.arg for a in fn.args.args} if hasattr(fn, 'args') else set()
        for _ in range(4):
            self.infer()

    def infer(self):
        for n in self.nodes:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if n.value is None:
                    continue
                for t in ts:
                    if isinstance(t, ast.Name):
                        if self.is_set(n.value):
                            self.sets.add(t.id)
                        src = self.source_in(n.value)
                        if src:
                            self.taint[t.id] = src

    # -- what an expression is
    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            f = dotted(e.func)
            if f in ('set', 'frozenset') and f not in self.shadow:
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in SETOPS and self.is_set(e.func.value):
                return True
            return False
        if isinstance(e, ast.Name):
            return e.id in self.sets
        if isinstance(e, ast.Attribute):
            return e.attr in self.setattrs
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left) or (self.is_set(e.right) and not isinstance(e.op, ast.Sub))
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        return False

    def source(self, e):
        """the name of the source that e is"""
        if isinstance(e, ast.Call):
            f = dotted(e.func)
            if f is None or f.split('.')[0] in self.shadow:
                return None
            if f == 'hash' and getattr(self.fn, 'name', '') != '__hash__':
                return 'hash()'
            if f == 'id':
                return 'id()'
            if f.startswith(CLOCKS) or f in BARE:
                return f + '()'
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in self.taint:
            return self.taint[e.id]
        return None

    def source_in(self, e):
        """the source whose value reaches the value of e"""
        s = self.source(e)
        if s:
            return s
        if isinstance(e, ast.BinOp):
            return self.source_in(e.left) or self.source_in(e.right)
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                if self.source_in(x):
                    return self.source_in(x)
        if isinstance(e, ast.IfExp):
            return self.source_in(e.body) or self.source_in(e.orelse)
        if isinstance(e, ast.Call) and dotted(e.func) in ('str', 'repr', 'int', 'abs', 'hex', 'format'):
            for x in e.args:
                if self.source_in(x):
                    return self.source_in(x)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('strftime', 'isoformat'):
            return self.source_in(e.func.value)
        return None

    # -- where it goes
    def sink(self, e):
        """how the value of the source e is used, if that is a sink"""
        p = self.parent.get(e)
        if isinstance(p, ast.BinOp):
            return 'arithmetic or formatting'
        if isinstance(p, (ast.FormattedValue, ast.JoinedStr)):
            return 'formatting'
        if isinstance(p, ast.Return):
            return 'the returned value'
        if isinstance(p, ast.Assign) and any(isinstance(t, ast.Attribute) for t in p.targets):
            return 'the attribute %s' % ast.unparse(p.targets[0])
        if isinstance(p, ast.keyword):
            return 'an argument'
        if isinstance(p, ast.Call) and e in p.args:
            if isinstance(p.func, ast.Attribute) and p.func.attr in KEYCALLS:
                return None
            return 'an argument of %s' % (dotted(p.func) or 'a call')
        if isinstance(p, ast.Attribute) and p.attr in ('strftime', 'isoformat', 'hex', 'timestamp'):
            return 'formatting'
        return None

    def formats(self, e):
        p = self.parent.get(e)
        return isinstance(p, ast.BinOp) and isinstance(p.op, (ast.Mod, ast.Add)) and p.right is e and \
            not self.source_in(p.left)

    def in_comment(self, e):
        """is e part of a text that starts a comment?"""
        n = e
        while n in self.parent and not isinstance(n, ast.stmt):
            p = self.parent[n]
            t = None
            if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod):
                t = p.left
            elif isinstance(p, ast.JoinedStr):
                t = p.values[0]
            elif isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == 'format':
                t = p.func.value
            elif isinstance(p, ast.Call) and p.args and n is not p.args[0]:
                t = p.args[0]
            elif isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add):
                t = p.left
            if isinstance(t, ast.Constant) and isinstance(t.value, str) and t.value.lstrip().startswith('#') and \
                    '\n' not in t.value.strip():
                return True
            n = p
        # a name that is only used inside of comments
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            uses = [x for x in self.nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and
                    x.id == n.targets[0].id]
            return bool(uses) and all(self.in_comment(u) for u in uses)
        return False

    def ordered(self, e):
        """how the order of the set e is used, if it is"""
        p = self.parent.get(e)
        if isinstance(p, ast.Call) and e in p.args:
            f = dotted(p.func) or getattr(p.func, 'attr', '')
            if f in ('list', 'tuple', 'enumerate', 'zip', 'map', 'filter', 'iter', 'reversed', 'str', 'repr'):
                if self.unordered_use(p):
                    return None
                return '%s() of it' % f
            if isinstance(p.func, ast.Attribute) and p.func.attr in ('join', 'extend'):
                return '.%s() of it' % p.func.attr
            return None
        if isinstance(p, ast.Starred):
            q = self.parent.get(p)
            return None if isinstance(q, ast.Set) else 'its items as arguments'
        if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and p.right is e:
            return 'formatting'
        if isinstance(p, ast.comprehension) and p.iter is e:
            c = self.parent.get(p)
            if isinstance(c, ast.SetComp) or self.unordered_use(c):
                return None
            if isinstance(c, ast.DictComp):
                return None if not self.dict_order(c) else 'the order of a dict'
            if isinstance(c, ast.GeneratorExp) and not isinstance(self.parent.get(c), ast.Call):
                return None
            return 'a sequence in its order'
        if isinstance(p, ast.For) and p.iter is e:
            for x in p.body:
                for n in ast.walk(x):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        return 'a generator in its order'
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                            'w', 'ww', 'wl', 'writeline', 'write', 'block', 'append', 'extend', 'insert'):
                        if n.func.attr in ('append', 'extend', 'insert') and self.sorted_later(n.func.value):
                            continue
                        return 'a loop that writes or collects in its order'
                    if isinstance(n, ast.AugAssign) and not isinstance(n.op, (ast.BitOr, ast.BitAnd)) and \
                            not isinstance(n.value, ast.Constant):
                        return 'a loop that accumulates in its order'
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            n.func.attr.startswith(('emit', '_emit', 'declare', 'generate')):
                        return 'a loop that emits in its order'
        return None

    def sorted_later(self, lst):
        name = dotted(lst)
        for n in self.nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and \
                    dotted(n.func.value) == name:
                return True
            if isinstance(n, ast.Call) and dotted(n.func) in UNORDERED_OK and n.args and dotted(n.args[0]) == name:
                return True
        return False

    def unordered_use(self, e):
        p = self.parent.get(e)
        if isinstance(p, ast.Call) and e in p.args:
            f = dotted(p.func)
            if f in UNORDERED_OK:
                return True
            if isinstance(p.func, ast.Attribute) and p.func.attr in ('update', 'add', 'issubset', 'issuperset') + \
                    tuple(SETOPS):
                return True
        if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
            return True
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            return self.sorted_later(p.targets[0])
        return False

    def dict_order(self, c):
        return False

    def check(self):
        out = []
        for n in self.nodes:
            s = self.source(n)
            if s:
                k = self.sink(n)
                if k == 'arithmetic or formatting' and s.startswith(CLOCKS) and not self.formats(n):
                    k = None            # a duration
                if k and not self.in_comment(n):
                    out.append((n, '%s reaches %s' % (s, k)))
            if isinstance(n, ast.expr) and self.is_set(n):
                k = self.ordered(n)
                if k:
                    out.append((n, 'the order of the set %s reaches %s' % (ast.unparse(n)[:60], k)))
        return out


def own_nodes(fn):
    """the nodes of a function, without those of the functions inside it"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def functions(tree, cls=None):
    yield cls, tree
    for n in own_nodes(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in functions(n, cls):
                yield x
        elif isinstance(n, ast.ClassDef):
            for x in functions(n, n.name):
                yield x


class Deterministic(object):
    name = 'compiler_deterministic'
    props = 'C25'
    worlds = ('pure',)

    def check(self, w, prop):
        found, n, files = [], 0, []
        for mod in MODULES:
            path = w.path_of(mod)
            if path is None:
                continue
            with open(path) as f:
                tree = ast.parse(f.read())
            files.append(mod)
            scopes = list(functions(tree))
            setattrs = set()
            for cls, fn in scopes:
                for x in own_nodes(fn):
                    if isinstance(x, ast.Assign) and Scope.is_set(Bare(), x.value):
                        setattrs |= {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
            for cls, fn in scopes:
                if (mod, getattr(fn, 'name', '')) in SKIP:
                    continue
                n += 1
                sc = Scope(self, mod, fn, cls, setattrs)
                for node, msg in sc.check():
                    found.append(('%s:%d (%s)' % (path, node.lineno, getattr(fn, 'name', 'module')), msg))
        return {'status': 'violated' if found else 'proved', 'instances': n, 'paths': n, 'funcs': files,
                'detail': [('violated', '%s: %s' % x) for x in found]}


class Bare(object):
    sets, setattrs, shadow = frozenset(), frozenset(), frozenset()
    is_set = Scope.is_set


RULES = [Deterministic()]
