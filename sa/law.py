"""Laws: two-sided statements about the analysed program.

A law is a class in /verif/laws/*.py with two functions over the same symbolic
arguments: `spec` (reference, written from the format/documentation) and `impl`
(which calls into the repository).  Both are evaluated by the abstract
interpreter; every outcome of `spec` (a set of facts about the arguments plus a
value or an exception) is used as the precondition of `impl`, whose outcomes must
then all carry the same value / exception / stores.
"""
import random
import ast
import os

from . import frontend
from .frontend import Unsupported
from .terms import Atom, Lin, atom, iatom, CTYPES, as_lin, show, is_int, rng, sub, add, mod, floordiv, atoms_of, FMTWIDTH, FMTRANGE
from .facts import Facts, Cond, ge, ge0, eq0, cnot, cor, cand
from .values import (MODULE_HEAP, textparts, has_token, Ref, HObj, HList, HDict, Ptr, Func, State, Class, Exc, Event, Bound, Builtin)
from .interp import Frame, Native, Star, uncond
from .world import Module

LAWDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'laws')
INTS = {'u8': 'unsigned char', 'i8': 'int8_t', 'u16': 'uint16_t', 'i16': 'int16_t',
        'u32': 'uint32_t', 'i32': 'int32_t', 'u64': 'uint64_t', 'i64': 'int64_t'}


class Missing(Exception):
    """a repository name the law refers to does not exist"""


class Infeasible(Exception):
    pass


def load_laws(w, fname):
    """module with the law file's globals, bound in world w"""
    name = 'law.' + fname
    if name in w.modules:
        return w.modules[name]
    path = os.path.join(LAWDIR, fname + '.py')
    m = Module(name, path, False)
    w.modules[name] = m
    m.globals['__name__'] = name
    m.globals['__file__'] = path
    m.sm = frontend.parse_py(path)
    for k, f in INTRINSICS.items():
        m.globals[k] = Native(f, k)
    m.globals['AnyError'] = Builtin('Exception')
    w.run_module(m)
    return m


def law_classes(w, fname):
    m = load_laws(w, fname)
    return [v for v in m.globals.values()
            if isinstance(v, Class) and v.module is m and v.lookup('spec') and v.lookup('impl')]


# ------------------------------------------------------------------ intrinsics
def i_requires(I, st, fr, args, kw):
    out = []
    for s, b in I.truth(st, args[0], fr):
        if b:
            out.append((s, None))
    return out


def i_repo(I, st, fr, args, kw):
    """repo('capnpy.mod:Name.attr')"""
    dotted = args[0]
    if ':' not in dotted:
        m = I.w.load(dotted)
        if m is None:
            raise Missing(dotted)
        return [(st, m)]
    mod, name = dotted.split(':')
    m = I.w.load(mod)
    if m is None:
        raise Missing(dotted)
    parts = name.split('.')
    if kw.get('py') and parts[0] in m.globals:
        v = I.w.resolve(m.globals[parts[0]])
    else:
        v = I.w.mod_attr(m, parts[0])
    if v is None and parts[0] not in m.globals:
        raise Missing(dotted)
    for p in parts[1:]:
        if not isinstance(v, Class):
            raise Missing(dotted)
        v = I.w.resolve(v.lookup(p))
        if v is None:
            raise Missing(dotted)
    return [(st, v)]


def i_rd(I, st, fr, args, kw):
    """rd(buf, fmt, off): the little-endian value at buf[off:]"""
    buf, fmt, off = args
    return [(st, I.rd(st, I.canon(buf, st), fmt, off))]


def i_sym(I, st, fr, args, kw):
    """sym(name, type): a new symbolic input"""
    return [(st, symbol(I, st, args[0], args[1]))]


def i_new(I, st, fr, args, kw):
    """obj(cls, sym): symbolic instance of exactly that class"""
    cls, name = args
    a = atom('sym', name, typ=cls.name)
    return [(st, I.symobj(st, cls, a, exact=True))]


def i_compiled(I, st, fr, args, kw):
    return [(st, I.w.kind == 'compiled')]


def i_either(I, st, fr, args, kw):
    """either(a, b): nondeterministic choice, named (so both sides agree)"""
    a = atom('choice', args[0])
    out = []
    from .facts import pred
    t, f = I.branch(st, pred(a))
    return [(s, True) for s in t] + [(s, False) for s in f]


def i_raises(I, st, fr, args, kw):
    """raise one of the given exceptions (spec side)"""
    s = st.fork()
    names = tuple(getattr(a, 'name', a) for a in args)
    s.exc = Exc('|'.join(names) if names else '*')
    return [(s, None)]


def i_stores(I, st, fr, args, kw):
    """the list of (region, offset, size, value) stores so far"""
    out = []
    for e in st.events:
        if e.kind == 'store':
            out.append(tuple(e.data))
    return [(st, tuple(out))]


def i_assume_len(I, st, fr, args, kw):
    return [(st, None)]


def i_undefined(I, st, fr, args, kw):
    """anything goes here (outside the law)"""
    s = st.fork()
    s.exc = Exc('?')
    return [(s, None)]


def mem_of(I, st, b):
    """the bytearray object behind a SegmentBuilder (or the bytearray itself)"""
    if isinstance(b, Ref) and isinstance(st.obj(b), HObj) and st.obj(b).cls == 'bytearray':
        return st.obj(b)
    r = I.getattr(st, b, 'buf', None)[0][1]
    return st.obj(r)


def i_end(I, st, fr, args, kw):
    """end(b): number of bytes allocated so far in a SegmentBuilder"""
    b = args[0]
    if I.w.kind == 'compiled':
        return [(st, I.getattr(st, b, 'end', None)[0][1])]
    return [(st, mem_of(I, st, b).fields['len'])]


def i_setend(I, st, fr, args, kw):
    """setend(b, n): assume that n bytes are allocated so far (both sides)"""
    b, n = args
    s = st.fork()
    r = I.getattr(s, b, 'buf', None)[0][1]
    s.wobj(r).fields['end0'] = n
    if I.w.kind == 'compiled':
        s.wobj(b).fields['end'] = n
        s = I.assume(s, ge(I.getattr(s, b, 'length', None)[0][1], n))[0]
    else:
        s.wobj(r).fields['len'] = n
    return [(s, None)]


def i_store(I, st, fr, args, kw):
    """store(b, off, fmt, value): expected store (spec side)"""
    b, off, fmt, v = args
    s = st.fork()
    n = FMTWIDTH[fmt]
    I.event(s, None, 'store', (mem_of(I, s, b).sym, off, n, fmt, v if is_int(v) else I.canon(v, s)))
    return [(s, None)]


def i_copy(I, st, fr, args, kw):
    """copy(b, off, src, start, n): expected copy of src[start:start+n]"""
    b, off, src, start, n = args
    s = st.fork()
    I.event(s, None, 'store', (mem_of(I, s, b).sym, off, n, 'copy', (I.canon(src, s), start)))
    return [(s, None)]


def i_mem(I, st, fr, args, kw):
    """mem(b, fmt, off): the value now stored at off"""
    b, fmt, off = args
    return [(st, I.mem_read(st, mem_of(I, st, b).sym, fmt, off))]


def i_grow(I, st, fr, args, kw):
    """grow(b, n): expected allocation of n zero bytes (spec side); gives their position"""
    b, n = args
    s = st.fork()
    e = i_end(I, s, fr, [b], {})[0][1]
    if I.w.kind == 'compiled':
        mem_of(I, s, b)
        s.wobj(b).fields['end'] = add(e, n)
    else:
        r = I.getattr(s, b, 'buf', None)[0][1]
        s.wobj(r).fields['len'] = add(e, n)
    return [(s, e)]


def i_given(I, st, fr, args, kw):
    """given(buf, off, value): assume that the 8 bytes at off hold this (unsigned) word"""
    buf, off, v = args
    s = st.fork()
    s.facts = s.facts.copy()
    s.facts.words += ((I.canon(buf, s), off, v),)
    return [(s, None)]


def i_recurse(I, st, fr, args, kw):
    """recurse(name, ...): the analysed function calls itself with these arguments"""
    return recursive_call(I, st, args[0], list(args[1:]))


def recursive_call(I, st, name, args):
    """a recursive call, by its contract: builders among the arguments may have
    grown (and moved), what was allocated before stays; it may also raise"""
    s = st.fork()
    cargs = tuple(I.canon(a, s) for a in args)
    I.event(s, None, 'recurse', (name,) + cargs)
    tag = atom('rec', name, s.count('rec:' + name))
    for a in args:
        if not (isinstance(a, Ref) and isinstance(s.obj(a), HObj)):
            continue
        o = s.obj(a)
        if not (isinstance(o.cls, Class) and o.cls.name == 'SegmentBuilder'):
            continue
        m = I.getattr(s, a, 'buf', None)[0][1]
        if I.w.kind == 'compiled':
            e = I.getattr(s, a, 'end', None)[0][1]
            n = add(e, iatom('recgrow', tag, lo=0, hi=2 ** 36))
            ln = add(n, iatom('recspare', tag, lo=0, hi=2 ** 36))
            o = s.wobj(a)
            o.fields['end'], o.fields['length'] = n, ln
            o.fields.pop('cbuf', None)
            b = s.wobj(m)
            b.fields['ver'] = add(b.fields['ver'], 1)
            b.fields['len'] = ln
        else:
            b = s.wobj(m)
            b.fields['len'] = add(b.fields['len'], iatom('recgrow', tag, lo=0, hi=2 ** 36))
    from .facts import pred
    ok, bad = I.branch(s, cnot(pred(atom('recfails', tag))))
    out = [(x, None) for x in ok]
    for x in bad:
        x = x.fork()
        x.exc = Exc('recursion')
        out.append((x, None))
    return out


def i_again(I, st, fr, args, kw):
    """again(name, ...): the result of a recursive call with these arguments"""
    return recursive_value(I, st, args[0], list(args[1:]))


def recursive_value(I, st, name, args):
    from .facts import pred
    cargs = tuple(I.canon(a, st) for a in args)
    for a in st.facts.preds:            # congruence: the same call again
        if a.op == 'againfails' and a.args[0] == name and len(a.args) == len(cargs) + 1 and all(
                x == y or is_int(x) and is_int(y) and st.facts.equal_int(x, y)
                for x, y in zip(a.args[1:], cargs)):
            cargs = a.args[1:]
            break
    r = iatom('again', name, *cargs, lo=-1, hi=2 ** 62)
    ok, bad = I.branch(st, cnot(pred(atom('againfails', name, *cargs))))
    out = [(x, as_lin(r)) for x in ok]
    for x in bad:
        x = x.fork()
        x.exc = Exc('recursion')
        out.append((x, None))
    return out


from .gen import i_generated, i_quietly
INTRINSICS = {'generated': i_generated, 'quietly': i_quietly, 'again': i_again, 'recurse': i_recurse, 'given': i_given, 'end': i_end, 'setend': i_setend, 'store': i_store, 'copy': i_copy, 'mem': i_mem, 'grow': i_grow,
              'requires': i_requires, 'repo': i_repo, 'rd': i_rd, 'sym': i_sym, 'symobj': i_new,
              'compiled': i_compiled, 'choice': i_either, 'raises': i_raises,
              'stores': i_stores, 'undefined': i_undefined}


def symbol(I, st, name, t):
    """symbolic input; the type is part of its identity (ranges differ)"""
    if isinstance(t, Class):
        return I.symobj(st, t, atom('sym', name, t.name, typ=t.name), exact=True)
    t = INTS.get(t, t)
    if t == 'int':
        return iatom('sym', name, t)
    if t == 'bool':
        from .facts import pred
        return pred(atom('sym', name, t))
    if t[0] == 'u' and t[1:].isdigit():
        return iatom('sym', name, t, lo=0, hi=2 ** int(t[1:]) - 1)
    if t[0] == 'i' and t[1:].isdigit():
        n = int(t[1:])
        return iatom('sym', name, t, lo=-2 ** (n - 1), hi=2 ** (n - 1) - 1)
    if ':' in t:
        mod, c = t.split(':')
        m = I.w.load(mod)
        k = I.w.resolve(m.globals.get(c)) if m else None
        if not isinstance(k, Class):
            raise Missing(t)
        return I.symobj(st, k, atom('sym', name, t, typ=c), exact=False)
    return I.symval(st, ('sym', name, t), t)


class Result(object):
    def __init__(self, law, world):
        self.law, self.world = law, world
        self.status = 'proved'      # proved | violated | undecided | missing
        self.detail = []
        self.paths = 0
        self.accesses = 0       # raw memory accesses checked
        self.funcs = set()
        self.visited = set()

    def downgrade(self, status, msg):
        order = ['proved', 'undecided', 'missing', 'violated']
        if order.index(status) > order.index(self.status):
            self.status = status
        self.detail.append((status, msg))


def law_cases(w, cls):
    """[(id, case args)] of a law: class attribute `cases` is a tuple of tuples"""
    st = w.base
    cases = cls.lookup('cases')
    if cases is None:
        return [(cls.name, ())]
    out = []
    more = cls.lookup('more') if getattr(w, 'tier', 'quick') == 'thorough' else None
    for c in list(as_list(w, cases)) + list(as_list(w, more) if more is not None else ()):
        c = tuple(as_list(w, c)) if isinstance(c, (tuple, Ref)) else (c,)
        if 'pyx' in c and w.kind == 'pure':
            continue                    # Cython output only exists where capnpy is compiled
        out.append(('%s[%s]' % (cls.name, ','.join(str(getattr(x, 'name', x)) for x in c)), c))
    return out


def as_list(w, v):
    if isinstance(v, Ref):
        return w.base.obj(v).items
    return v


def check_law(w, cls, case=(), budget=400000, name=None, frame=False):
    """decide one law in one world"""
    I = w.interp
    res = Result(name or cls.name, w.kind)
    hooks, fhooks, om = dict(w.hooks), dict(w.field_hooks), set(w.open_methods)
    w.mocks = dict(base_dict(w, cls.lookup('mocks') or ()))
    try:
        I.budget = budget
        _check(w, cls, res, case, frame)
    except Missing as e:
        res.downgrade('missing', 'name not found: %s' % e)
    except Unsupported as e:
        res.downgrade('undecided', 'analysis gave up: %s' % (e,))
    except RecursionError:
        res.downgrade('undecided', 'analysis recursion limit')
    finally:
        I.budget = None
        I.unroll = 0
        I.maxrec = 1
        w.hooks, w.field_hooks, w.open_methods = hooks, fhooks, om
        w.mocks = {}
    return res


def opaque_hook(name):
    """treat a function as uninterpreted (its own laws are elsewhere); it may raise"""
    def h(I, st, fr, args, kw):
        return I.opaque(st, fr, name, args, kw, pure=True)
    return h


def calls_hook(name):
    """like opaque_hook, and a 'call' event records the arguments (not the object)"""
    def h(I, st, fr, args, kw):
        out = []
        for s, r in I.opaque(st, fr, name, args, kw, pure=True):
            I.event(s, fr, 'call', (name,) + tuple(I.canon(a, s) for a in args[1:]) +
                    tuple(sorted((k, I.canon(v, s)) for k, v in kw.items())), None)
            out.append((s, r))
        return out
    return h


def base_dict(w, v):
    return list(w.base.obj(v).items.items()) if isinstance(v, Ref) else list(v)


def stub_hook(v):
    """a function which is replaced by a constant result, or by an exception class"""
    def h(I, st, fr, args, kw):
        if isinstance(v, Builtin):
            return [(I.raise_(st, v.name), None)]
        if isinstance(v, Func):
            return I.call_func(v, args, kw, st, fr, None)
        return [(st, v)]
    return h


def int_hash_hook(t):
    """contract of _hash.inthash and longhash (proved by laws of C10): hash() of the same int"""
    def h(I, st, fr, args, kw):
        from .stdlib import b_hash
        out = []
        for s, v in I.coerce(st, args[0], t, None, fr):
            out += b_hash(I, [v], {}, s, fr, None) if s.exc is None else [(s, None)]
        return out
    return h


def tuple_hash_hook(I, st, fr, args, kw):
    """contract of _hash.tuplehash (proved by laws of C10): hash() of a tuple of items with these hashes"""
    from .stdlib import hash_tuple
    o = st.obj(args[0]) if isinstance(args[0], Ref) else None
    items = o.items if isinstance(o, HList) else [o.fields.get(i) for i in range(args[1])]
    if None in items or len(items) != args[1]:
        raise Unsupported('tuplehash of a part of an array')
    return [(st, hash_tuple(items))]


def read_str_hook(I, st, fr, args, kw):
    """Segment.read_str (its own laws are elsewhere): a null pointer is the default"""
    seg, p, off, default, extra = args
    null, rest = I.branch(st, eq0(p))
    out = [(s, default) for s in null]
    for s in rest:
        out += I.opaque(s, fr, 'Segment.read_str', [seg, p, off, extra], {}, pure=True, typ='bytes')
    return out


def hash_str_hook(I, st, fr, args, kw):
    """contract of Segment.hash_str (a law of C10): the hash of what read_str returns"""
    from .stdlib import b_hash
    seg, p, off, default, extra = args
    null, rest = I.branch(st, eq0(p))
    out = [(s, default) for s in null]
    for s in rest:
        for s2, v in I.opaque(s, fr, 'Segment.read_str', [seg, p, off, extra], {}, pure=True, typ='bytes'):
            out += b_hash(I, [v], {}, s2, fr, None) if s2.exc is None else [(s2, None)]
    return out


HASHES = {'Segment.read_str': read_str_hook, 'Segment.hash_str': hash_str_hook,
          'capnpy._hash.inthash': int_hash_hook('long'), 'capnpy._hash.longhash': int_hash_hook('unsigned long'),
          'capnpy._hash.tuplehash': tuple_hash_hook}


def contract_hook(name):
    def h(I, st, fr, args, kw):
        return recursive_call(I, st, name, list(args))
    return h


def _params(w, cls, st):
    fn = cls.lookup('spec')
    out = []
    for p in fn.node.args.args:
        t = 'object'
        if isinstance(p.annotation, ast.Constant):
            t = p.annotation.value
        elif isinstance(p.annotation, ast.Name):
            t = p.annotation.id
        out.append(symbol(w.interp, st, p.arg, t))
    return out


def const_attr(cls, name, default=None):
    return cls.dict.get(name, default)


def _check(w, cls, res, case, frame=False):
    I = w.interp
    st = w.base.fork()
    st.env, st.events = {}, []
    args = list(case) + _params(w, cls, st)[len(case):]
    base_heap = dict(st.heap)
    spec, impl = cls.lookup('spec'), cls.lookup('impl')
    m = cls.module
    fr = Frame(w, None, m)
    fr.compiled = False
    track = cls.lookup('track')
    if track is None:
        track = ('store',)
    w.strict64 = bool(cls.lookup('strict64'))
    w.framing = frame
    I.unroll = cls.lookup('unroll') or 0
    I.maxrec = cls.lookup('maxrec') or 1
    for q in cls.lookup('opaque') or ():
        w.hooks[q] = opaque_hook(q)
    for q in cls.lookup('calls') or ():
        w.hooks[q] = calls_hook(q)
    rv = cls.lookup('recvalue')
    if rv:
        def valhook(I, st, fr, args, kw):
            if args[0].qualname.split('.')[-1] == rv:
                return recursive_value(I, st, rv, list(args[1:]))
        w.hooks['recursion'] = valhook
    rec = cls.lookup('recursive')
    if rec:
        def rechook(I, st, fr, args, kw):
            if args[0].qualname.split('.')[-1] == rec:
                return recursive_call(I, st, rec, list(args[1:]))
        w.hooks['recursion'] = rechook
    stub = cls.lookup('stub')
    if stub is not None:
        for q, v in (base_dict(w, stub)):
            w.hooks[q] = stub_hook(v)
    if cls.lookup('hashes'):
        w.hooks.update(HASHES)
    for q in cls.lookup('contract') or ():
        for mod in ('capnpy.segment.builder', 'capnpy.segment._' + q):
            w.hooks['%s.%s' % (mod, q)] = contract_hook(q)
    souts = I.call_func(spec, list(args), {}, st.fork(), fr, None)
    if not souts:
        raise Unsupported('spec has no outcome')
    KNOWN[0] = known_calls(w, cls, souts)
    w.visited = set()
    audited = w.kind == 'compiled' and cls.lookup('audit') is not False
    audit_only = bool(cls.lookup('audit_only'))
    seen = set()
    for s, sv in souts:
        if s.exc is not None and s.exc.name == '?':
            continue
        s2 = st.fork()
        s2.facts = s.facts
        for i, v in INTROD(s, base_heap):
            s2.heap.setdefault(i, v)
        iouts = I.call_func(impl, list(args), {}, s2, fr, None)
        for t, tv in iouts:
            if not _feasible(t):
                continue
            res.paths += 1
            if frame:
                frame_check(w, s2, t, t.events, res)
                continue
            r = compare(w, s, sv, t, tv, track) if not audit_only else None
            if r is not None:
                res.downgrade(*r)
            if audited:
                audit(w, t, t.events, res, seen)
    res.visited = set(f.where for f in w.visited)
    res.funcs = set(f.qualname for f in w.visited)
    if res.paths == 0:
        res.downgrade('undecided', 'no feasible path')


def frame_check(w, before, t, events, res, limit=0):
    """nothing which existed before the call was changed by it"""
    I = w.interp
    bad = 'undecided' if facts_vague(t.facts) else 'violated'

    def report(e, what):
        res.downgrade(bad, '%s at %s (in %s) %s' % (what, e.where, e.func.qualname if e.func else '?',
                                                   'when %s' % short(t.facts, 300)))
    for e in events:
        if e.kind == 'loop':
            for f, evs, ctl in e.data[2]:
                frame_check(w, before, t, evs, res, limit)
            continue
        if e.kind == 'enter':
            limit = e.data[0]
        if e.func is not None and e.func.module.name.startswith(('law.', 'capnpy.compiler')):
            continue
        if e.kind == 'setattr':
            res.accesses += 1
            v, name, x = e.data
            if not isinstance(v, Ref):
                m = getattr(v, 'module', v)
                if isinstance(v, Class) and (m is None or m.globals.get(v.name) is not v):
                    continue            # a class made by the call itself
                if not getattr(m, 'name', '').startswith('law.'):
                    report(e, 'attribute %s of %r, which all objects share, is set' % (name, v))
                continue
            o = t.obj(v)
            if getattr(getattr(getattr(o, 'cls', None), 'module', None), 'name', '').startswith('law.'):
                continue
            if v.id in before.heap or v.id in MODULE_HEAP or v.id <= limit or getattr(o, 'sym', None) is not None:
                b = before.heap.get(v.id) or MODULE_HEAP.get(v.id) or o
                if initial(I, b, name, x, t) or name in b.fields and b is not o and \
                        differ(I, before, b.fields[name], t, x) is None:
                    continue
                report(e, 'attribute %s of a %s is changed' % (name, cn(o)))
        elif e.kind == 'store':
            res.accesses += 1
            region = e.data[0]
            if isinstance(region, Atom) and region.op == 'mem' and region.args[0] == 'ba':
                continue                # a bytearray made by the call itself
            if any(a.op in ('sym', 'param', 'attr', 'mem') for a in all_atoms(region)) and \
                    not any(a.op in ('newbytes', 'fresh') for a in all_atoms(region)):
                report(e, 'bytes of %s are changed' % short(region, 100))
    for i in set(before.heap) | set(MODULE_HEAP):
        if i in t.heap:
            a, b = before.heap.get(i, MODULE_HEAP.get(i)), t.heap[i]
            if a is not b and isinstance(a, (HList, HDict)):
                d = differ(I, before, Ref(i), t, Ref(i))
                if d is not None:
                    res.downgrade(bad, 'a list or dict which existed before the call is changed: %s' % d[1])


def audit(w, t, events, res, seen):
    """every raw load/store lies inside its region, given what is known there"""
    for e in events:
        if e.kind == 'loop':
            for f, evs, ctl in e.data[2]:
                audit(w, t, evs, res, seen)
            continue
        if e.kind not in ('load', 'store'):
            continue
        region, off, n = e.data[:3]
        if e.stale:
            res.downgrade('violated', 'access at %s through an address taken before the buffer was resized' % e.where)
            continue
        key = (id(e.facts), region, off, n)
        if key in seen:
            continue
        seen.add(key)
        size = e.size
        if size is None:
            continue
        res.accesses += 1
        for c, what in ((ge0(off), 'starts before'), (ge0(sub(sub(size, off), n)), 'ends after')):
            if e.facts.entails(c):
                continue
            bad = 'undecided' if vague(off, n, size, region) or facts_vague(e.facts) else 'violated'
            res.downgrade(bad, 'raw %s of %s bytes at offset %s of %s (%s bytes long) %s the buffer, at %s: %s'
                          % (e.kind, show_any(n), short(off, 200), short(region, 80), short(size, 80), what,
                             e.where, short(e.facts)))
            break


def INTROD(s, base):
    """symbolic objects the spec created with sym()"""
    return [(i, o) for i, o in s.heap.items()
            if i not in base and isinstance(o, HObj) and o.sym is not None and isinstance(o.cls, Class)]


def _feasible(t):
    return t.facts.consistent_ne()


VAGUE = ('fresh', 'opaque', 'loopvar', 'loopitems', 'looplast', 'top', 'k', 'newbytes')
KNOWN = [None]      # calls the law itself speaks about: their results can be compared


def known_calls(w, cls, souts):
    from .stdlib import PURE
    known = set(PURE)
    for k in ('opaque', 'calls', 'contract'):
        known.update(cls.lookup(k) or ())
    known.add('Segment.read_str')
    for s, v in souts:
        for a in all_atoms([v, list(s.facts.ge), list(s.facts.ne), list(s.facts.preds),
                            [e.data for e in s.events if isinstance(getattr(e, 'data', None), tuple)]]):
            if a.op == 'call':
                known.add(a.args[0])
    return known


def unknown_call(a):
    if a.op != 'call' or KNOWN[0] is None:
        return False
    n = a.args[0]
    return not (isinstance(n, str) and (n in KNOWN[0] or n.split('.')[0] in ('str', 'unicode', 'bytes') and
                n.split('.')[-1] in ('encode', 'decode', 'join', 'format', 'strip', 'lower', 'upper')))



def vague(*vs):
    """does a value involve something the analysis made up?"""
    for v in vs:
        for a in all_atoms(v):
            if a.op in VAGUE or unknown_call(a) or a.op in ('eq', 'eqc', 'truth', 'cmp', 'is', 'in') and has_star(a.args):
                return True
    return False


def has_star(v):
    if isinstance(v, tuple):
        return bool(v) and v[0] == 'star' or any(has_star(x) for x in v)
    return isinstance(v, Atom) and has_star(v.args)


def all_atoms(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, Lin):
        for a, _ in v.terms:
            all_atoms(a, acc)
    elif isinstance(v, Atom):
        if v not in acc:
            acc.add(v)
            for x in v.args:
                all_atoms(x, acc)
    elif isinstance(v, (tuple, list)):
        for x in v:
            all_atoms(x, acc)
    elif isinstance(v, Cond):
        a = v.arg
        all_atoms(a, acc)
    elif isinstance(v, Ptr):
        all_atoms(v.region, acc)
        all_atoms(v.off, acc)
    return acc


def facts_vague(f):
    return vague(list(f.ge), list(f.ne), list(f.preds))


def compare(w, s, sv, t, tv, track):
    """None if equal, else (status, message)"""
    r = compare1(w, s, sv, t, tv, track)
    if r is not None and t.facts.saturated() is None:
        return None
    return r


def compare1(w, s, sv, t, tv, track):
    I = w.interp
    def pc():
        return 'when %s' % short(t.facts)
    bad = 'undecided' if facts_vague(t.facts) else 'violated'
    if s.exc is not None or t.exc is not None:
        if s.exc is None:
            return bad, 'raises %s%s instead of returning %s %s' % (
                t.exc.name, at(t), short(I.canon(sv, s)), pc())
        if t.exc is None:
            return bad, 'returns %s instead of raising %s %s' % (short(I.canon(tv, t)), s.exc.name, pc())
        if s.exc.name == '*' or t.exc.name in s.exc.name.split('|') or _subexc(t.exc.name, s.exc.name):
            return None
        return bad, 'raises %s%s instead of %s %s' % (t.exc.name, at(t), s.exc.name, pc())
    d = differ(I, s, sv, t, tv)
    if d is not None:
        if d[0] == 'undecided' or bad == 'undecided':
            return 'undecided', 'cannot compare: %s %s' % (d[1], pc())
        return 'violated', '%s %s' % (d[1], pc())
    for kind in track:
        if kind == 'store':
            d = stores_differ(I, s, t)
            if d is not None:
                if bad == 'undecided':
                    return 'undecided', d[1]
                return d[0], '%s %s' % (d[1], pc())
            continue
        a = [e for e in s.events if e.kind == kind]
        b = [e for e in t.events if e.kind == kind]
        if kind == 'call':      # calls for different places: any order will do
            a, b = [sorted(x, key=lambda e: [repr(d) for d in e.data[:2]]) for x in (a, b)]
        if len(a) != len(b):
            return bad, '%d %s events instead of %d %s (%s)' % (
                len(b), kind, len(a), pc(), short([e.data for e in b]))
        for x, y in zip(a, b):
            d = differ(I, s, tuple(x.data), t, tuple(y.data))
            if d is not None:
                if d[0] == 'undecided' or bad == 'undecided':
                    return 'undecided', d[1]
                return 'violated', '%s at %s: %s %s' % (kind, y.where, d[1], pc())
    return None


def stored(I, st, e):
    """normal form of a store event: (region, off, n, kind, value); None = invisible"""
    region, off, n, kind = e.data[:4]
    v = e.data[4] if len(e.data) > 4 else None
    if n == 0 or st.facts.equal_int(n, 0):
        return None
    if isinstance(region, Atom) and region.op == 'newbytes':
        return None     # part of the value, see settle()
    if kind in ('set', 'copy', 'bytes'):
        if kind == 'set':
            if v == 0 and isinstance(region, Atom) and region.op == 'mem' and region.args[0] == 'builder' and \
               I.w.kind == 'compiled':
                ln = I.symval(st, ('attr', region.args[1], 'length'), 'Py_ssize_t')
                if st.facts.entails(ge(off, ln)):
                    return None     # new capacity is cleared
            return region, off, n, 'set', v
        src, start = v if kind == 'copy' else (v, 0)
        if isinstance(src, Atom) and src.op == 'slice' and src.args[1] is not None:
            src, start = src.args[0], add(src.args[1], start)
        return region, off, n, 'copy', src, start
    k = kind[-1:]
    if k in 'fd':
        return region, off, n, k, v
    return region, off, n, 'int', v


def store_differ(I, s, x, t, y):
    if x[3] != y[3] or len(x) != len(y):
        return 'violated', 'stores %s, expected %s' % (short(y[1:]), short(x[1:]))
    d = seq_differ(I, s, x[:4], t, y[:4], 0)
    if d is not None:
        return d
    if x[3] == 'int' and is_int(norm(x[4])) and is_int(norm(y[4])) and isinstance(x[2], int):
        m = 2 ** (8 * x[2])
        a, b = norm(x[4]), norm(y[4])
        if t.facts.equal_int(a, b) or t.facts.equal_int(mod(a, m), mod(b, m)):
            return None
        return kindof(a, b), 'stores %s, expected %s' % (short(b), short(a))
    return seq_differ(I, s, x[4:], t, y[4:], 0)


def zero_again(I, st, i, data):
    """this store of a zero number finds the zeros there already (memory is cleared when it is allocated), so that
    leaving it out makes no difference"""
    region, off, n, kind = data[:4]
    k = kind[-1:] if isinstance(kind, str) and kind not in ('set', 'copy', 'bytes') else ''
    if len(data) < 5 or k not in FMTRANGE or not (isinstance(data[4], int) and data[4] == 0):
        return False
    if not (isinstance(region, Atom) and region.op == 'mem' and region.args[0] in ('builder', 'ba')):
        return False
    for x in st.events[:i]:
        if x.kind in ('call', 'loop'):
            return False
        if x.kind == 'recurse':
            if x.data[0] != 'copy_pointer' or not is_int(x.data[-1]) or \
               not st.facts.entails(ge(x.data[-1], add(off, n))):
                return False            # it writes the pointer there, and what it allocates
    q = st.fork()
    q.events = list(st.events[:i])
    v = I.mem_read(q, region, k, off)
    return isinstance(v, int) and v == 0


def stores_differ(I, s, t):
    """compare what was stored; the order of disjoint stores does not matter"""
    for e in t.events:
        if e.kind == 'loop' and any(x.kind in ('store', 'loop') for p in e.data[2] for x in p[1]):
            return 'undecided', 'stores inside a summarised loop'
        if e.kind == 'bresize':
            return 'violated', 'the buffer is resized by a slice assignment of another length at %s' % e.where
    a, b = [[x for x in ((stored(I, t, e), e) for e in z.events if e.kind == 'store') if x[0] is not None]
            for z in (s, t)]
    d = matched(I, s, a, t, b)
    if d is None or d[0] != 'violated':
        return d
    # what is there may be the same all the same: zeros that were there already, other portions
    a, b = [[(x, e) for x, e in q if not zero_again(I, z, z.events.index(e), e.data)] for q, z in ((a, s), (b, t))]
    if matched(I, s, a, t, b) is None:
        return None
    a, b = [[(y, e) for x, e in q for y in halves(x) or [x] if y is x or not zero_again(
        I, z, z.events.index(e), y[:3] + ('I',) + y[4:])] for q, z in ((a, s), (b, t))]
    if matched(I, s, a, t, b) is None:
        return None
    return d


def halves(x):
    """a store of an eight byte number as two of four bytes each"""
    if x[3] != 'int' or x[2] != 8 or not is_int(norm(x[4])):
        return None
    v = norm(x[4])
    return [(x[0], x[1], 4, 'int', mod(v, 2 ** 32)), (x[0], add(x[1], 4), 4, 'int', mod(floordiv(v, 2 ** 32), 2 ** 32))]


def matched(I, s, a, t, b):
    first = None
    left = list(b)
    for x, _ in a:
        for i, (y, e) in enumerate(left):
            d = store_differ(I, s, x, t, y)
            if d is None:
                del left[i]
                break
            if first is None:
                first = d[0], 'at %s: %s' % (e.where, d[1])
        else:
            if first is None:
                first = kindof(*x), 'nothing stored'
            return first[0], 'expected store of %s at offset %s; %s' % (short(x[3:]), short(x[1]), first[1])
    for y, e in left:
        return kindof(*y), 'unexpected store at %s: %s at offset %s' % (e.where, short(y[2:]), short(y[1]))
    return None


def _subexc(name, base):
    import builtins
    a = getattr(builtins, name.split('.')[-1], None)
    for b in base.split('|'):
        b = getattr(builtins, b, None)
        if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
            return True
        if a is None and b is Exception:
            return True
    return False


def at(t):
    n = t.exc.where
    if n is None:
        return ''
    return ' (at %s:%s)' % (getattr(n, '_file', ''), getattr(n, 'lineno', '?'))


def short(x, n=700):
    r = x if isinstance(x, str) else show_any(x)
    return r if len(r) <= n else r[:n] + '...'


def show_any(x):
    if isinstance(x, Facts):
        return repr(x)
    if isinstance(x, (tuple, list)):
        return '(%s)' % ', '.join(show_any(y) for y in x)
    if isinstance(x, (Lin, Atom)):
        return show(x)
    return repr(x)


def differ(I, s, a, t, b, depth=0):
    """None if value a (in state s) equals b (in state t); else (status, message)"""
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
        oa, ob = s.obj(a), t.obj(b)
        if isinstance(oa, HObj) and oa.sym is not None:
            return fields_differ(I, s, oa, t, ob, depth)
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = s.obj(a), t.obj(b)
        if type(oa) is not type(ob):
            return 'violated', 'got %s, expected %s' % (short(I.canon(b, t)), short(I.canon(a, s)))
        if isinstance(oa, HObj):
            if oa.sym is not None or ob.sym is not None:
                if oa.sym is ob.sym:
                    return fields_differ(I, s, oa, t, ob, depth)
                return kindof(oa.sym, ob.sym), 'got %s, expected %s' % (
                    short(I.canon(b, t)), short(I.canon(a, s)))
            if oa.cls is not ob.cls:
                return 'violated', 'got a %s, expected a %s' % (cn(ob), cn(oa))
            if depth > 8:
                return None
            return fields_differ(I, s, oa, t, ob, depth)
        if isinstance(oa, HList):
            return seq_differ(I, s, oa.items, t, ob.items, depth)
        if isinstance(oa, HDict):
            if oa.open is not ob.open or list(map(repr, oa.items)) != list(map(repr, ob.items)):
                if set(map(repr, oa.items)) != set(map(repr, ob.items)):
                    return 'violated', 'got dict %s, expected %s' % (short(list(ob.items)), short(list(oa.items)))
            for k in oa.items:
                d = differ(I, s, oa.items[k], t, ob.items.get(k), depth + 1)
                if d:
                    return d
            return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return seq_differ(I, s, a, t, b, depth)
    if isinstance(a, Star) and isinstance(b, Star):
        return differ(I, s, a.v, t, b.v, depth + 1)
    a, b = norm(a), norm(b)
    if (a is None) != (b is None):
        x = b if a is None else a
        if isinstance(x, Atom) and t.facts.preds.get(atom('isnone', x)) is True:
            return None
    if is_int(a) != is_int(b) and plain(a) is not None and plain(a) == plain(b):
        return None
    if is_int(a) and is_int(b):
        if t.facts.equal_int(a, b):
            return None
        a, b = truth_value(t, a), truth_value(t, b)
        if t.facts.equal_int(a, b):
            return None
        d = sub(a, b)
        if not isinstance(d, (Lin, Atom)):
            return 'violated', 'got %s, expected %s' % (show(b), show(a))
        if t.facts.entails(cnot(eq0(d))):
            return 'violated', 'got %s, expected %s' % (short(b), short(a))
        k = kindof(a, b)
        if k == 'violated' and not witness(d, t.facts):
            k = 'undecided'
        return k, 'got %s, expected %s' % (short(b), short(a))
    ca, cb = I.canon(a, s), I.canon(b, t)
    if ca == cb:
        return None
    ca, cb = I.settle(s, ca), I.settle(t, cb)
    if bytesy(ca) and bytesy(cb):
        pa, pb = I.pieces(ca, t.facts), I.pieces(cb, t.facts)
        if len(pa) == len(pb) and len(pa) != 1:
            d = None
            for x, y in zip(pa, pb):
                d = d or (not samepiece(t, x[0], y[0]) and kindof(x, y) or None)
                d = d or seq_differ(I, s, x[1:], t, y[1:], depth + 1)
            if d is None:
                return None
        elif len(pa) == 1 == len(pb) and samepiece(t, pa[0][0], pb[0][0]) and \
                t.facts.equal_int(pa[0][1], pb[0][1]) and t.facts.equal_int(pa[0][2], pb[0][2]):
            return None
        qa, qb = halved(pa), halved(pb)
        if len(qa) == len(qb) and (len(qa), len(qb)) != (len(pa), len(pb)) and all(
                samepiece(t, x[0], y[0]) and t.facts.equal_int(x[1], y[1]) and t.facts.equal_int(x[2], y[2])
                for x, y in zip(qa, qb)):
            return None                 # the same bytes, put together in other portions
        if len(pa) != 1 or len(pb) != 1 or pa[0][0] == pb[0][0]:
            return kindof(ca, cb), 'got %s, expected %s' % (short(cb), short(ca))
    if isinstance(ca, (bool, Cond)) or isinstance(cb, (bool, Cond)):
        return cond_differ(I, s, ca, t, cb)
    if texty(ca) and texty(cb) and (composed(ca) or composed(cb)):
        return text_differ(I, s, ca, t, cb, depth)
    if isinstance(ca, Ptr) and isinstance(cb, Ptr):
        return seq_differ(I, s, (ca.region, ca.off), t, (cb.region, cb.off), depth)
    if isinstance(ca, Atom) and isinstance(cb, Atom) and ca.op == cb.op and len(ca.args) == len(cb.args) \
       and depth < 12 and not ca.kind == 'int':
        d = seq_differ(I, s, ca.args, t, cb.args, depth + 1)
        if d is None:
            return None
        return kindof(ca, cb), 'got %s, expected %s' % (short(cb), short(ca))
    return kindof(ca, cb), 'got %s, expected %s' % (short(cb), short(ca))


def texty(v):
    return isinstance(v, str) or isinstance(v, Atom) and v.typ in ('str', 'unicode')


def composed(v):
    return has_token(v) or isinstance(v, Atom) and v.op == 'cat'


def text_differ(I, s, a, t, b, depth):
    """two texts with values inside: the same literals around equal values"""
    pa, pb = pieces(s, a), pieces(t, b)
    msg = 'got %s, expected %s' % (show_text(pb), show_text(pa))
    va, vb = [tuple(I.settle(x, y[1]) for y in z if not isinstance(y, str)) for x, z in ((s, pa), (t, pb))]
    if len(pa) == len(pb) and all(x == y if isinstance(x, str) else not isinstance(y, str) for x, y in zip(pa, pb)):
        ds = [differ(I, s, x, t, y, depth + 1) for x, y in zip(va, vb)]
        ds = [d for d in ds if d]
        if not ds:
            return None
        return ('violated' if ds[0][0] == 'violated' and all(d[0] == 'violated' for d in ds) else 'undecided'), msg
    return kindof(*(va + vb)), msg


def pieces(st, v):
    """the parts of a text, concatenations included"""
    out = []
    for x in textparts(v) if isinstance(v, str) else (('v', v),):
        y = x if isinstance(x, str) else x[1]
        if isinstance(y, str) and y is not x and has_token(y) or isinstance(y, Atom) and y.op == 'cat' and y.typ == 'str':
            for z in (y.args if isinstance(y, Atom) else (y,)):
                out += pieces(st, z)
        else:
            out.append(y if isinstance(y, str) else ('v', y))
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return tuple(r)


def show_text(parts):
    return repr(''.join(x if isinstance(x, str) else '{%s}' % short(x[1]) for x in parts))


def truth_value(t, v):
    """0 or 1 if v is the number of a truth value that is known"""
    c = None if isinstance(v, (bool, int)) else uncond(v)
    if c is None or isinstance(c, bool):
        return v
    if not t.facts.assume(c, False):
        return 1
    if not t.facts.assume(c, True):
        return 0
    return v


def halved(ps):
    """pieces of bytes with eight byte numbers split into two of four bytes each"""
    out = []
    for x in ps:
        v = x[0]
        if isinstance(v, Atom) and v.op == 'pack' and len(v.args) == 2 and v.args[0] == 'Q' and \
                x[1] == 0 and x[2] == 8 and is_int(norm(v.args[1])):
            n = norm(v.args[1])
            for h in (mod(n, 2 ** 32), mod(floordiv(n, 2 ** 32), 2 ** 32)):
                out.append((h.to_bytes(4, 'little') if isinstance(h, int) else atom('pack', 'I', h, typ='bytes'), 0, 4))
        else:
            out.append(x)
    r = []
    for x in out:                       # constants in one piece
        if isinstance(x[0], bytes) and isinstance(x[1], int) and isinstance(x[2], int):
            c = x[0][x[1]:x[2]]
            if r and isinstance(r[-1][0], bytes) and r[-1][1] == 0 and r[-1][2] == len(r[-1][0]):
                c = r.pop()[0] + c
            x = (c, 0, len(c))
        r.append(x)
    return r


def samepiece(t, x, y):
    if x == y:
        return True
    return isinstance(x, Atom) and isinstance(y, Atom) and x.op == y.op == 'pack' and \
        len(x.args) == len(y.args) == 2 and x.args[0] == y.args[0] and \
        is_int(norm(x.args[1])) and is_int(norm(y.args[1])) and t.facts.equal_int(norm(x.args[1]), norm(y.args[1]))


def bytesy(v):
    return isinstance(v, bytes) or isinstance(v, Atom) and v.typ == 'bytes'


def kindof(*vs):
    return 'undecided' if vague(*vs) else 'violated'


def witness(d, facts, tries=400):
    """is there a value of the unknowns of d, allowed by the facts, for which it is not 0? (None: none was found,
    although some values are allowed)"""
    leaves = set()
    arith_leaves(d, leaves)
    cons = []
    for x in facts.ge + facts.ne:
        l = set()
        arith_leaves(x, l)
        if l <= leaves:
            cons.append((x, x in facts.ge))
    leaves = sorted(leaves, key=repr)
    if not leaves or len(leaves) > 6:
        return True
    rnd = random.Random(1)
    consts = {0, 1, -1, 2, 255}
    for x in [d] + [x for x, _ in cons]:
        collect_consts(x, consts)
    consts = sorted(consts)
    allowed = 0
    for i in range(tries):
        env = {}
        for x in leaves:
            lo = -2 ** 64 if x.lo is None else x.lo
            hi = 2 ** 65 if x.hi is None else x.hi
            k = rnd.randrange(4)
            if k == 0:
                v = rnd.choice(consts) + rnd.randrange(-1, 2)
            elif k == 1:
                v = rnd.choice((lo, hi, lo + 1, hi - 1))
            elif k == 2:
                v = rnd.choice((1, -1)) * rnd.randrange(2 ** rnd.randrange(1, 66))
            else:
                v = rnd.randint(lo, hi)
            env[x] = min(max(v, lo), hi)
        try:
            if all((arith(x, env) >= 0) if g else (arith(x, env) != 0) for x, g in cons):
                allowed += 1
                if arith(d, env) != 0:
                    return True
        except ValueError:
            return True
    return not allowed


def arith_leaves(v, acc):
    if isinstance(v, Lin):
        for x, _ in v.terms:
            arith_leaves(x, acc)
    elif isinstance(v, Atom):
        if v.op == 'fdiv' or v.op in ('xor', 'and', 'or') and all(is_int(y) for y in v.args):
            for y in v.args:
                arith_leaves(y, acc)
        else:
            acc.add(v)


def collect_consts(v, acc):
    if isinstance(v, Lin):
        acc.add(v.const)
        acc.add(-v.const)
        for x, c in v.terms:
            collect_consts(x, acc)
    elif isinstance(v, Atom):
        for y in v.args:
            if isinstance(y, int):
                acc.add(y)
            elif isinstance(y, (Lin, Atom)):
                collect_consts(y, acc)


def arith(v, env):
    if isinstance(v, Lin):
        return v.const + sum(c * arith(x, env) for x, c in v.terms)
    if not isinstance(v, Atom):
        return int(v)
    if v in env:
        return env[v]
    a, b = [arith(y, env) for y in v.args]
    if v.op == 'fdiv':
        return a // b
    return {'xor': a ^ b, 'and': a & b, 'or': a | b}[v.op]


def norm(v):
    if isinstance(v, Atom) and v.kind == 'int':
        return as_lin(v)
    return v


def plain(v):
    """operator and arguments of an unknown, whatever type it was converted to"""
    if isinstance(v, Lin) and v.const == 0 and len(v.terms) == 1 and v.terms[0][1] == 1:
        v = v.terms[0][0]
    return (v.op, v.args) if isinstance(v, Atom) else None


def cn(o):
    return o.cls.name if isinstance(o.cls, Class) else str(o.cls)


def cond_differ(I, s, a, t, b):
    from .facts import Cond
    def tocond(v, st):
        if isinstance(v, (bool, Cond)):
            return v
        c = uncond(v)
        if c is not None:
            return c
        if is_int(v):
            return cnot(eq0(v))
        return None
    ka, kb = tocond(a, s), tocond(b, t)
    if ka is None or kb is None:
        return kindof(a, b), 'got %s, expected %s' % (short(b), short(a))
    fx = t.facts
    xs, ys = all_atoms(ka), all_atoms(kb)
    for y in ys:
        if y.kind == 'int' and y not in xs and y.args:
            for x in xs:
                if x.op == y.op and x.kind == 'int' and fx.same(x, y):
                    fx = fx.copy()
                    if not fx._add(eq0(sub(as_lin(x), as_lin(y))), True):
                        return None
                    break
    for pa, pb in ((True, False), (False, True)):
        for f in fx.assume(ka, pa):
            if f.assume(kb, pb):
                return kindof(a, b), 'got %s, expected %s' % (short(b), short(a))
    return None


def fields_differ(I, s, oa, t, ob, depth):
    fa, fb = oa.fields, ob.fields
    for n in fa:
        if n not in fb:
            if oa.sym is not None:
                continue            # cached read of a symbolic object
            return 'violated', 'attribute %s is missing' % n
    for n in sorted(set(fa) | set(fb)):
        if n == 'cbuf':
            continue
        if n not in fa or n not in fb:
            if oa.sym is not None:
                v = fb.get(n, fa.get(n))
                st = t if n in fb else s
                if initial(I, oa, n, v, st):
                    continue
            return 'violated', 'attribute %s %s' % (n, 'is missing' if n not in fb else 'is unexpectedly set')
        d = differ(I, s, fa[n], t, fb[n], depth + 1)
        if d is not None:
            return d[0], '.%s: %s' % (n, d[1])
    return None


def initial(I, o, n, v, st):
    """is v just the initial value of field n of a symbolic object?"""
    c = I.canon(v, st)
    for a in all_atoms(c):
        if a.op == 'attr' and a.args[0] is o.sym and a.args[1] == n:
            return True
    return False


def seq_differ(I, s, xs, t, ys, depth):
    if len(xs) != len(ys):
        return 'violated', 'got %d items, expected %d: %s vs %s' % (
            len(ys), len(xs), short([I.canon(y, t) for y in ys]), short([I.canon(x, s) for x in xs]))
    for x, y in zip(xs, ys):
        d = differ(I, s, x, t, y, depth + 1)
        if d is not None:
            return d
    return None
