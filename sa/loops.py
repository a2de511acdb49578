"""Loops: concrete unrolling, otherwise induction over an iteration counter.

A loop that cannot be unrolled is summarised from an arbitrary iteration k:
every variable (and heap field) changed by the body is either init + c*k (when
all paths through the body change it by the same loop-invariant amount), or an
unknown that keeps the inequalities new >= init / new <= init when every path
is monotone.  The body is then interpreted once in that state; `return`,
`break` and `raise` leave it, and the exit state is the head state with the
guard false.
"""
import ast

from .frontend import Unsupported
from .terms import (Lin, Atom, atom, iatom, fresh, as_lin, is_int, add, sub, neg, mul, scale, rng, atoms_of, show)
from .facts import ge, lt, ge0, eq0, pred, cnot, cand
from .values import Ref, HObj, HList, HDict, HGen, Event, Ptr, Func, Class, Bound, Builtin
from .interp import Range, Star, Native, is_const, as_num, Cell, local_names, UNDEF

UNROLL = 320
_loopid = [0]


def stored_names(stmts):
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if hasattr(n, 'name'):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in stmts:
        visit(s)
    return out


# ---------------------------------------------------------------- while loops

def while_loop(I, n, st, fr):
    out = []
    cur = [st]
    for it in range(UNROLL + 1):
        nxt = []
        for s in cur:
            # decide the guard without splitting; otherwise use induction
            decided = []
            undecided = False
            I.silent += 1
            try:
                res = I.ev(n.test, s, fr)
                for s2, v in res:
                    if s2.exc:
                        undecided = True
                        break
                    c = I.cond(v, s2)
                    if isinstance(c, tuple):
                        undecided = True
                        break
                    if not isinstance(c, bool):
                        if s2.facts.entails(c):
                            c = True
                        elif s2.facts.entails(cnot(c)):
                            c = False
                        else:
                            undecided = True
                            break
                    decided.append((s2, c))
            finally:
                I.silent -= 1
            if isinstance(n.test, ast.Constant):
                undecided = True
            if undecided or it >= UNROLL or len(decided) != 1:
                out += induct_while(I, n, s, fr)
                continue
            for s2, c in decided:
                if not c:
                    out += _else(I, n, s2, fr)
                    continue
                for s3, ctl in I.block(n.body, s2, fr):
                    if ctl in (None, 'continue'):
                        nxt.append(s3)
                    elif ctl == 'break':
                        out.append((s3, None))
                    else:
                        out.append((s3, ctl))
        cur = nxt
        if not cur:
            break
        if len(cur) > 60:
            raise Unsupported('loop unrolling')
    return out


def _else(I, n, st, fr):
    if n.orelse:
        return I.block(n.orelse, st, fr)
    return [(st, None)]


def induct_while(I, n, st, fr):
    def head(s):
        """-> [(state, entered?)]"""
        out = []
        for s2, v in I.ev(n.test, s, fr):
            if s2.exc:
                out.append((s2, None))
            else:
                out += I.truth(s2, v, fr)
        return out

    def body(s):
        return I.block(n.body, s, fr)
    if I.unroll:
        return unroll(I, n, st, fr, lambda s, i: head(s), lambda s, i: body(s))
    return induct(I, n, st, fr, head, body, stored_names(n.body) | stored_names([ast.Expr(n.test)]))


def unroll(I, n, st, fr, head, body):
    """iterate, forking on the guard; gives up beyond the law's bound"""
    out = []
    cur = [st]
    for it in range(I.unroll + 1):
        nxt = []
        for s in cur:
            for s1, enter in head(s, it):
                if enter is None:
                    out.append((s1, 'raise'))
                elif not enter:
                    out += _else(I, n, s1, fr)
                elif it >= I.unroll:
                    raise Unsupported('loop runs more than %d times' % I.unroll)
                else:
                    for s2, ctl in body(s1, it):
                        if ctl in (None, 'continue'):
                            nxt.append(s2)
                        elif ctl == 'break':
                            out.append((s2, None))
                        else:
                            out.append((s2, ctl))
        cur = nxt
        if not cur:
            break
    return out


def for_loop(I, n, st, fr):
    out = []
    for s, it in I.ev(n.iter, st, fr):
        if s.exc:
            out.append((s, 'raise'))
        else:
            out += for_over(I, n, s, it, fr)
    return out


def concrete_items(I, st, it):
    """list of values, or None"""
    if isinstance(it, Range):
        if all(isinstance(x, int) for x in (it.start, it.stop, it.step)):
            r = range(it.start, it.stop, it.step)
            return list(r) if len(r) <= UNROLL else None
        return None
    if isinstance(it, tuple):
        items = list(it)
    elif isinstance(it, Ref) and isinstance(st.obj(it), HList):
        items = list(st.obj(it).items)
    elif isinstance(it, Ref) and isinstance(st.obj(it), HDict) and st.obj(it).open is None:
        items = list(st.obj(it).items)
    elif isinstance(it, str):
        items = list(it)
    elif isinstance(it, bytes):
        items = list(it)
    else:
        return None
    if any(isinstance(x, Star) for x in items) or len(items) > UNROLL:
        return None
    return items


def by_protocol(I, st, v, fr, node):
    """the items of an object that __getitem__(0), (1)... gives until its IndexError, if there are few of them and
    nothing is undecided on the way; None otherwise"""
    if not (isinstance(v, Ref) and isinstance(st.obj(v), HObj) and isinstance(st.obj(v).cls, Class) and
            st.obj(v).sym is None):
        return [(st, None)]
    f = I.w.resolve(st.obj(v).cls.lookup('__getitem__'))
    if st.obj(v).cls.lookup('__iter__') is not None or not isinstance(f, Func):
        return [(st, None)]
    cur, allowed = [(st, [])], 1
    for i in range(12):
        nxt, stop = [], 0
        for s, items in cur:
            try:
                rs = I.call(Bound(v, f), [i], {}, s, fr, node)
            except Unsupported:
                return [(st, None)]
            for s2, r in rs:
                if s2.exc:
                    if s2.exc.name != 'IndexError':
                        return [(st, None)]
                    s2 = s2.fork()
                    s2.exc = None
                    stop += 1
                    nxt.append((s2, items))
                else:
                    nxt.append((s2, items + [r]))
        if len(nxt) > 8 or stop not in (0, len(nxt)):
            return [(st, None)]         # how many there are is not known
        if stop:
            return nxt
        cur = nxt
    return [(st, None)]


def settled(st, x):
    """the small constant that x is known to equal, or x"""
    if isinstance(x, (Lin, Atom)):
        for c in range(5):
            if st.facts.equal_int(x, c):
                return c
    return x


def for_over(I, n, st, it, fr):
    if isinstance(it, Range) and isinstance(it.start, int) and isinstance(it.stop, (Lin, Atom)):
        it = Range(it.start, settled(st, it.stop), it.step)
    if I.generating and isinstance(it, Ref) and isinstance(st.obj(it), HGen):
        from .stdlib import items_of
        out = []
        for s, items in items_of(I, it, st, fr, n):
            out += [(s, 'raise')] if s.exc else for_over(I, n, s, tuple(items), fr)
        return out
    items = concrete_items(I, st, it)
    out = []
    if items is not None:
        cur = [st]
        for x in items:
            nxt = []
            for s in cur:
                for s1 in I.assign(n.target, x, s.fork(), fr):
                    if s1.exc:
                        out.append((s1, 'raise'))
                        continue
                    for s2, ctl in I.block(n.body, s1, fr):
                        if ctl in (None, 'continue'):
                            nxt.append(s2)
                        elif ctl == 'break':
                            out.append((s2, None))
                        else:
                            out.append((s2, ctl))
            cur = nxt
            if len(cur) > 500:
                raise Unsupported('too many states in a loop')
        for s in cur:
            out += _else(I, n, s, fr)
        return out
    # symbolic: an object with __iter__/__getitem__ of ours
    if isinstance(it, Ref) and isinstance(st.obj(it), HObj):
        o = st.obj(it)
        if isinstance(o.cls, Class) and o.cls.lookup('__iter__') is None and o.cls.lookup('__getitem__') is None \
                and o.sym is None:
            return [(I.raise_(st, 'TypeError', ('not iterable',), n), 'raise')]
    if it is None:
        return [(I.raise_(st, 'TypeError', ('not iterable',), n), 'raise')]
    if I.generating and not isinstance(it, Range):
        raise Unsupported('line %s: loop over %s' % (getattr(n, 'lineno', '?'), show(I.canon(it, st))))
    k = iatom('k', loop_id(n), _depth(fr), lo=0)
    if isinstance(it, Range):
        if not isinstance(it.step, int) or it.step == 0:
            raise Unsupported('range step')
        item = add(it.start, scale(k, it.step))
        inside = lt(item, it.stop) if it.step > 0 else lt(it.stop, item)
    else:
        c = I.canon(it, st)
        if isinstance(it, Ref) and isinstance(st.obj(it), HList) and len(st.obj(it).items) == 1 and \
                isinstance(st.obj(it).items[0], Star):
            c = st.obj(it).items[0].v
        item, N = symbolic_item(I, st, c, k)
        inside = lt(k, N)

    def head(s):
        t, f = I.branch(s, inside)
        return [(x, True) for x in t] + [(x, False) for x in f]

    def body(s):
        out = []
        for s1 in I.assign(n.target, item, s.fork(), fr):
            if s1.exc:
                out.append((s1, 'raise'))
            else:
                out += I.block(n.body, s1, fr)
        return out
    if I.unroll and isinstance(it, Range):
        def nth(s, i):
            t, f = I.branch(s, lt(add(it.start, i * it.step), it.stop) if it.step > 0
                            else lt(it.stop, add(it.start, i * it.step)))
            return [(x, True) for x in t] + [(x, False) for x in f]

        def step(s, i):
            out = []
            for s1 in I.assign(n.target, add(it.start, i * it.step), s.fork(), fr):
                out += [(s1, 'raise')] if s1.exc else I.block(n.body, s1, fr)
            return out
        return unroll(I, n, st, fr, nth, step)
    return induct(I, n, st, fr, head, body, stored_names(n.body) | stored_names([n.target]), k=k,
                  target=stored_names([n.target]), rng_=it if isinstance(it, Range) else None)


def symbolic_item(I, st, c, k):
    """(k-th item, length) of a symbolic iterable"""
    h = I.w.hooks.get('iter')
    if h:
        r = h(I, st, c, k)
        if r is not None:
            return r
    if isinstance(c, Atom) and c.typ == 'bytes':
        return iatom('rd', c, 'B', k, lo=0, hi=255), as_lin(I.length(c))
    if isinstance(c, Atom) and c.op == 'enumerate':
        x, n = symbolic_item(I, st, c.args[0], k)
        return (add(k, c.args[1]), x), n
    if isinstance(c, Atom) and c.op == 'zip':
        xs = [symbolic_item(I, st, a, k) for a in c.args]
        return tuple(x for x, _ in xs), xs[0][1]
    return atom('item', c, k, typ='object'), iatom('len', c, lo=0)


_ids = {}


def loop_id(n):
    r = _ids.get(id(n))
    if r is None or r[0] is not n:
        r = _ids[id(n)] = (n, len(_ids))
    return r[1]


def _depth(fr):
    d = 0
    f = fr
    while f is not None:
        d += 1
        f = f.parent
    return d


# ------------------------------------------------------------------ induction

def induct(I, n, st, fr, head, body, names, k=None, target=(), rng_=None):
    lid = loop_id(n)
    if k is None:
        k = iatom('k', lid, _depth(fr), lo=0)
    names = [x for x in sorted(names) if x in st.env]
    nheap = set(st.heap)

    # variables: ('v', name) and ('f', ref id, field); value before the loop
    init = {('v', x): _get(I, st, ('v', x)) for x in names if x not in target}
    shape = {}          # var -> ('lin', delta) | ('ge',) | ('le',) | ('top',) | 'same'
    for v in init:
        shape[v] = None       # optimistic: unchanged... starts with an unknown delta
    trial = {v: ('trial',) for v in init}
    tags = {}

    def havoc(mode):
        s = st.fork()
        s.env = dict(s.env)
        for v, m in mode.items():
            x0 = init[v]
            if m[0] == 'same':
                continue
            if m[0] == 'lin':
                if isinstance(x0, Ptr):
                    _set(I, s, v, Ptr(x0.region, add(x0.off, mul(m[1], k)), x0.ctype))
                else:
                    _set(I, s, v, add(x0, mul(m[1], k)))
                continue
            _set(I, s, v, unknown(I, s, v, x0, m))
            if m[0] in ('ge', 'le', 'geg', 'leg') and is_int(x0):
                cur = _get(I, s, v)
                r = s.facts.assume(ge(cur, x0) if m[0] == 'ge' else ge(x0, cur))
                if r:
                    s.facts = r[0]
        r = s.facts.assume(ge0(k))
        if not r:
            return None
        s.facts = r[0]
        return s

    def unknown(I, s, v, x0, m):
        key = ('loop', lid, _depth(fr)) + v
        x0c = x0
        if is_int(x0) or isinstance(x0, bool):
            t = fr.types.get(v[1]) if v[0] == 'v' and fr.compiled else None
            from .terms import CTYPES
            lo, hi = CTYPES.get(t, (None, None))
            if t in ('bint',):
                lo, hi = 0, 1
            return iatom('loopvar', *key, lo=lo, hi=hi)
        if isinstance(x0, Ptr):
            return Ptr(x0.region, iatom('loopvar', *key), x0.ctype)
        ty = None
        if isinstance(x0, (bytes, str)):
            ty = type(x0).__name__
        elif isinstance(x0, Atom):
            ty = x0.typ
        return atom('loopvar', *key, typ=ty or 'object')

    mode = dict(trial)
    for rounds in range(8):
        s = havoc(mode)
        if s is None:
            break
        ends = []
        I.silent += 1
        try:
            for s1, inside in head(s.fork()):
                if s1.exc or not inside:
                    continue
                for s2, ctl in body(s1):
                    if ctl in (None, 'continue') and not s2.exc:
                        ends.append(s2)
        finally:
            I.silent -= 1
        changed = False
        # heap effects
        for e in ends:
            for i in nheap:
                o0, o1 = s.obj(Ref(i)), e.heap.get(i)
                if o1 is o0 or o1 is None:
                    continue
                if isinstance(o0, HObj):
                    for f in set(o0.fields) | set(o1.fields):
                        a, b = o0.fields.get(f, UNDEF), o1.fields.get(f, UNDEF)
                        if a is b or (a is not UNDEF and b is not UNDEF and I.canon(a, s) == I.canon(b, e)):
                            continue
                        key = ('f', i, f)
                        if key not in mode:
                            if a is UNDEF:
                                # read (lazily created) for the first time: same symbol every time
                                if o1.sym is not None and _is_attr(b, o1.sym, f):
                                    continue
                                b0 = None
                                init[key] = b0
                            else:
                                init[key] = st.obj(Ref(i)).fields.get(f, a)
                            mode[key] = ('trial',)
                            changed = True
                elif isinstance(o0, HList):
                    if len(o0.items) != len(o1.items) or any(x is not y and x != y for x, y in zip(o0.items, o1.items)):
                        key = ('l', i)
                        if key not in mode:
                            init[key] = None
                            mode[key] = ('list',)
                            changed = True
                elif isinstance(o0, HDict):
                    key = ('d', i)
                    if key not in mode and o0.items != o1.items:
                        init[key] = None
                        mode[key] = ('dict',)
                        changed = True
        if changed:
            continue
        for v, m in list(mode.items()):
            if m[0] in ('top', 'list', 'dict', 'same'):
                continue
            cur = _get(I, s, v)
            news = [_get(I, e, v) for e in ends]
            x0 = init[v]
            new_mode = m
            if x0 is UNDEF or any(x is UNDEF for x in news):
                new_mode = ('top',)
            elif all(I.canon(x, e) == I.canon(cur, s) for x, e in zip(news, ends)):
                new_mode = ('same',) if m[0] == 'trial' or m[0] == 'lin' and m[1] == 0 else m
                if m[0] == 'ge' or m[0] == 'le':
                    new_mode = m
            elif (is_int(x0) and all(is_int(x) for x in news) and is_int(cur)) or \
                 (isinstance(x0, Ptr) and all(isinstance(x, Ptr) and x.region == x0.region for x in news)
                  and isinstance(cur, Ptr)):
                if isinstance(x0, Ptr):
                    ds = [sub(x.off, cur.off) for x in news]
                else:
                    ds = [sub(x, cur) for x in news]
                d0 = ds[0]
                if m[0] in ('trial', 'lin') and all(d == d0 for d in ds) and invariant(d0, lid, k):
                    new_mode = ('lin', d0)
                elif not isinstance(x0, Ptr) and all(e.facts.entails(ge0(d)) if not isinstance(d, int) else d >= 0
                                                     for e, d in zip(ends, ds)) and m[0] in ('trial', 'lin', 'ge'):
                    new_mode = ('ge',)
                elif not isinstance(x0, Ptr) and m[0] != 'ge' and all(
                        e.facts.entails(ge0(neg(d))) if not isinstance(d, int) else d <= 0
                        for e, d in zip(ends, ds)):
                    new_mode = ('le',)
                else:
                    new_mode = ('top',)
            else:
                new_mode = ('top',)
            if new_mode != m:
                mode[v] = new_mode
                changed = True
        if not changed:
            break
    else:
        for v in mode:
            if mode[v][0] not in ('list', 'dict'):
                mode[v] = ('top',)
    for v in mode:
        if mode[v][0] == 'trial':
            mode[v] = ('same',)

    # final pass, recorded
    out = []
    s = havoc(mode)
    if s is None:
        return _else(I, n, st, fr)
    nev = len(s.events)
    paths = []
    exits = []
    for s1, inside in head(s):
        if s1.exc:
            exits.append((s1, 'raise'))
        elif not inside:
            exits.append((s1, None))
        else:
            for s2, ctl in body(s1):
                if ctl in (None, 'continue') and not s2.exc:
                    paths.append((s2.facts, s2.events[nev:], ctl))
                elif ctl == 'break':
                    exits.append((s2, 'break'))
                else:
                    exits.append((s2, ctl or 'raise'))
    ev = Event('loop', (lid, k, paths), None, s.facts, fr.func)
    for s2, ctl in exits:
        s2 = s2.fork()
        s2.events = s2.events[:nev] + [ev] + s2.events[nev:]
        if ctl is None:
            # normal exit: exactly the entry values when there was no iteration
            unk = [v for v in mode if mode[v][0] in ('ge', 'le', 'top')]
            zero, more = I.branch(s2, eq0(k))
            for z in zero:
                z = z.fork()
                ok = True
                for v in mode:
                    if mode[v][0] in ('same', 'list', 'dict'):
                        continue
                    cur = _get(I, z, v)
                    if is_int(cur) and is_int(init[v]):
                        r = z.facts.assume(eq0(sub(cur, init[v])))
                        if not r:
                            ok = False
                            break
                        z.facts = r[0]
                    if init[v] is not None or v[0] == 'v':
                        _set(I, z, v, init[v])
                for v in mode:
                    if v[0] in ('l', 'd'):
                        z.heap[v[1]] = st.obj(Ref(v[1]))
                if ok:
                    z.tags = z.tags | {('zero', lid)}
                    out += _else(I, n, z, fr)
            for m_ in more:
                if rng_ is not None and is_int(rng_.start) and rng_.step == 1:
                    # range exhausted: k == stop - start, and nothing else is known of k
                    N = sub(rng_.stop, rng_.start)
                    rel = [ge(N, 1)]
                    for v, m in mode.items():
                        cur = _get(I, m_, v)
                        if m[0] in ('ge', 'le') and is_int(init[v]) and is_int(cur):
                            rel.append(ge(cur, init[v]) if m[0] == 'ge' else ge(init[v], cur))
                    r = m_.facts.assume(eq0(sub(k, N)))
                    if not r:
                        continue
                    m_ = m_.fork()
                    m_.facts = r[0]
                    fx = [st.facts]
                    for c in rel:
                        fx = fx[0].assume(c) if fx else fx
                    if fx:
                        m_.facts = fx[0]
                        for v, m in mode.items():
                            if m[0] == 'lin' and is_int(init[v]):
                                _set(I, m_, v, add(init[v], mul(m[1], N)))
                elif rng_ is None and isinstance(n, ast.For):
                    N = symbolic_len(I, st, n, s, k)
                    if N is not None:
                        r = m_.facts.assume(eq0(sub(k, N)))
                        if not r:
                            continue
                        m_ = m_.fork()
                        m_.facts = r[0]
                for t in target:
                    m_ = m_.fork()
                    m_.env = dict(m_.env)
                    m_.env[t] = atom('looplast', lid, t, typ='object') if rng_ is None else \
                        (add(rng_.stop, -1) if is_int(rng_.stop) and rng_.step == 1 else iatom('looplast', lid, t))
                out += _else(I, n, m_, fr)
        elif ctl == 'break':
            out.append((s2, None))
        else:
            out.append((s2, ctl))
    return out


def symbolic_len(I, st, n, s, k):
    """the bound the head used: k < N  (recovered from the guard facts)"""
    return None


def _is_attr(v, sym, f):
    x = v
    if isinstance(x, Lin) and len(x.terms) == 1 and x.const == 0:
        x = x.terms[0][0]
    if isinstance(x, Ref):
        return True
    return isinstance(x, Atom) and x.op == 'attr' and x.args[0] is sym


def invariant(d, lid, k):
    """is the increment independent of the loop?"""
    if isinstance(d, int):
        return True
    for a in atoms_of(d):
        if a.op == 'loopvar' and a.args[1] == lid:
            return False
        if a in (k.terms[0][0],):
            return False
        if a.op in ('rdm', 'fresh', 'call', 'rd'):
            if depends(a, lid, k):
                return False
    return True


def depends(a, lid, k, depth=0):
    if isinstance(a, Atom):
        if a is k.terms[0][0] or (a.op == 'loopvar' and a.args[1] == lid) or a.op in ('rdm', 'fresh'):
            return True
        if a.op == 'call':
            return True
        return any(depends(x, lid, k, depth + 1) for x in a.args) if depth < 8 else True
    if isinstance(a, Lin):
        return any(depends(x, lid, k, depth + 1) for x, _ in a.terms)
    if isinstance(a, tuple):
        return any(depends(x, lid, k, depth + 1) for x in a)
    return False


def _get(I, s, v):
    if v[0] == 'v':
        x = s.env.get(v[1], UNDEF)
        if isinstance(x, Cell):
            return s.obj(Ref(x.id)).fields['v']
        return x
    if v[0] == 'f':
        return s.obj(Ref(v[1])).fields.get(v[2], UNDEF)
    return None


def _set(I, s, v, x):
    if v[0] == 'v':
        old = s.env.get(v[1])
        if isinstance(old, Cell):
            s.wobj(Ref(old.id)).fields['v'] = x
            return
        s.env = dict(s.env)
        s.env[v[1]] = x
    elif v[0] == 'f':
        s.wobj(Ref(v[1])).fields[v[2]] = x
    elif v[0] == 'l':
        o = s.wobj(Ref(v[1]))
        o.items = list(o.items) + [Star(atom('loopitems', v[1]))]
    elif v[0] == 'd':
        o = s.wobj(Ref(v[1]))
        o.open = atom('loopdict', v[1])


# -------------------------------------------------------------- comprehensions

def comprehension(I, e, st, fr, kind):
    """list/set/dict comprehension or generator expression (evaluated eagerly)"""
    out = []
    outer = st.env

    def iterables(e_iter, s):
        for s1, it in I.ev(e_iter, s, fr):
            items = None if s1.exc else concrete_items(I, s1, it)
            if items is None and not s1.exc:
                for s2, items in by_protocol(I, s1, it, fr, e):
                    yield s2, it, items
            else:
                yield s1, it, items

    def rec(gi, s):
        """-> list of (state, [values])"""
        if gi == len(e.generators):
            if isinstance(e, ast.DictComp):
                r = I.evs([e.key, e.value], s, fr)
                return [(x, [tuple(v)] if not x.exc else []) for x, v in r]
            return [(x, [v]) for x, v in I.ev(e.elt, s, fr)]
        g = e.generators[gi]
        res = []
        for s1, it, items in iterables(g.iter, s):
            if s1.exc:
                res.append((s1, []))
                continue
            if items is None:
                res += symbolic(gi, s1, it)
                continue
            cur = [(s1, [])]
            for x in items:
                nxt = []
                for s2, acc in cur:
                    if s2.exc:
                        nxt.append((s2, acc))
                        continue
                    s2 = s2.fork()
                    for s3 in I.assign(g.target, x, s2, fr):
                        if s3.exc:
                            nxt.append((s3, acc))
                            continue
                        for s4, ok in filt(g.ifs, s3):
                            if s4.exc or not ok:
                                nxt.append((s4, acc))
                                continue
                            for s5, vs in rec(gi + 1, s4):
                                nxt.append((s5, acc + vs))
                cur = nxt
            res += cur
        return res

    def filt(ifs, s):
        cur = [(s, True)]
        for c in ifs:
            nxt = []
            for s1, ok in cur:
                if s1.exc or not ok:
                    nxt.append((s1, ok))
                    continue
                for s2, v in I.ev(c, s1, fr):
                    if s2.exc:
                        nxt.append((s2, False))
                    else:
                        nxt += I.truth(s2, v, fr)
            cur = nxt
        return cur

    def symbolic(gi, s, it):
        g = e.generators[gi]
        # the bound index is named by nesting depth only, so that equal sequences
        # written in two places are the same atom
        k = iatom('k', 'map', I.mapdepth, lo=0)
        if isinstance(it, Range) and isinstance(it.step, int):
            item = add(it.start, scale(k, it.step))
            src = ('range', it.start, it.stop, it.step)
            inside = lt(item, it.stop) if it.step > 0 else lt(it.stop, item)
        elif isinstance(it, Range):
            src = ('range', it.start, it.stop, it.step)
            item = iatom('rangeitem', it.start, it.step, k)
            inside = pred(atom('inrange', it.stop, item))
        else:
            c = I.canon(it, s)
            item, N = symbolic_item(I, s, c, k)
            src = c
            inside = lt(k, N)
        res = []
        vals = []
        nev = len(s.events)
        t, f = I.branch(s.fork(), inside)
        # normal completion: a mapped sequence; early exit: an exception in some iteration
        for s1 in t:
            for s2 in I.assign(g.target, item, s1.fork(), fr):
                for s3, ok in filt(g.ifs, s2):
                    if s3.exc:
                        res.append((s3, []))
                        continue
                    if not ok:
                        continue
                    I.mapdepth += 1
                    try:
                        inner = rec(gi + 1, s3)
                    finally:
                        I.mapdepth -= 1
                    for s4, vs in inner:
                        if s4.exc:
                            res.append((s4, []))
                        else:
                            vals.append(tuple(I.canon(v, s4) for v in vs))
        uniq = []
        for v in vals:
            if v not in uniq:
                uniq.append(v)
        m = atom('map', tuple(uniq), k, src)
        s5 = s.fork()
        res.append((s5, [Star(m)]))
        return res

    for s, vs in rec(0, st.fork()):
        s.env = outer if not _has_cells(outer) else outer
        if s.exc:
            out.append((s, None))
            continue
        if kind == 'dict':
            d = HDict({})
            for v in vs:
                if isinstance(v, Star):
                    d.open = v.v
                else:
                    d.items[I.hashable(v[0], s)] = v[1]
            s = s.fork()
            out.append((s, s.alloc(d)))
        else:
            s = s.fork()
            out.append((s, s.alloc(HList(vs, kind))))
    return out


def _has_cells(env):
    return False
