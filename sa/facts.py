"""Conditions and the relational part of the abstract state.

A `Facts` object is a conjunction of linear inequalities over value numbers plus
a finite map of uninterpreted predicates.  Entailment is decided in-house by
Fourier-Motzkin elimination with integer tightening (incomplete answers are
"not entailed").
"""
from math import gcd
from functools import reduce
from .terms import (floordiv, mod, scale, FMTWIDTH, Lin, Atom, atom, as_lin, lin, add, sub, neg, scale, mk, rng, is_int,
                    atoms_of, digits, show, monomial, factors)


class Cond(object):
    """formula: ('ge0', Lin) ('eq0', Lin) ('p', Atom) ('not', c) ('and', cs) ('or', cs)"""
    __slots__ = ('op', 'arg')

    def __init__(self, op, arg):
        self.op, self.arg = op, arg

    def key(self):
        if self.op in ('and', 'or'):
            return (self.op, tuple(c.key() if isinstance(c, Cond) else c for c in self.arg))
        if self.op == 'not':
            return ('not', self.arg.key())
        return (self.op, self.arg)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key() == o.key()

    def __repr__(self):
        if self.op == 'ge0':
            return '%s >= 0' % show(self.arg)
        if self.op == 'eq0':
            return '%s == 0' % show(self.arg)
        if self.op == 'p':
            return show(self.arg)
        if self.op == 'not':
            if self.arg.op == 'ge0':
                return '%s < 0' % show(self.arg.arg)
            if self.arg.op == 'eq0':
                return '%s != 0' % show(self.arg.arg)
            return 'not %r' % (self.arg,)
        return '(%s)' % ((' %s ' % self.op).join(repr(x) for x in self.arg))


def ge0(x):
    lo, hi = rng(x)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    t = truth(x)
    if t is not None:
        return t[1] if x.const + t[0] >= 0 else cnot(t[1])
    return Cond('ge0', x)


def truth(x):
    """(coefficient, condition) if x is k*bool(c) + const"""
    if isinstance(x, Lin) and len(x.terms) == 1 and x.terms[0][0].op == 'bool':
        c = x.terms[0][0].args[0]
        if isinstance(c, Cond):
            return x.terms[0][1], c
    return None


def ge(a, b):
    return ge0(sub(a, b))


def lt(a, b):
    return ge0(sub(sub(b, a), 1))


def eq0(x):
    if not isinstance(x, (Lin, Atom)):
        return x == 0
    lo, hi = rng(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    x = as_lin(x)
    t = truth(x)
    if t is not None:
        return cnot(t[1]) if x.const == 0 else t[1] if x.const + t[0] == 0 else False
    if x.terms[0][1] < 0:
        x = neg(x)
    g = reduce(gcd, [c for _, c in x.terms])
    if x.const % g:
        return False
    if g > 1:
        x = mk({a: c // g for a, c in x.terms}, x.const // g)
    return Cond('eq0', x)


def pred(a):
    return Cond('p', a)


def cnot(c):
    if isinstance(c, bool):
        return not c
    if c.op == 'not':
        return c.arg
    return Cond('not', c)


def cand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.op == 'and':
            out += list(c.arg)
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c.op == 'or':
            out += list(c.arg)
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else Cond('or', tuple(out))


def dnf(c, pos=True):
    """list of conjunctions (lists) of literals (Cond, bool)"""
    if isinstance(c, bool):
        return [[]] if c == pos else []
    if c.op == 'not':
        return dnf(c.arg, not pos)
    if c.op in ('and', 'or'):
        if (c.op == 'and') == pos:
            out = [[]]
            for x in c.arg:
                out = [a + b for a in out for b in dnf(x, pos)]
            return out
        out = []
        prev = []
        # disjoint cases: x1 | !x1 & x2 | ...
        for x in c.arg:
            for b in dnf(x, pos):
                out += [p + b for p in (prev_combos(prev))]
            prev.append((x, pos))
        return out
    return [[(c, pos)]]


def prev_combos(prev):
    out = [[]]
    for x, pos in prev:
        out = [a + b for a in out for b in dnf(x, not pos)]
    return out


MAXC = 900


def _norm(d, c):
    """sum d + c >= 0 normalised (integer tightening)"""
    g = reduce(gcd, d.values(), 0)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g
    return d, c


def fm_unsat(cons):
    """cons: list of (dict, const) meaning sum+const>=0.  True if unsatisfiable."""
    best = {}

    def put(store, d, c):
        if not d:
            return c < 0
        d, c = _norm(d, c)
        key = tuple(sorted(d.items()))
        old = store.get(key)
        if old is None or c < old[1]:
            store[key] = (d, c)
        return False

    for d, c in cons:
        if put(best, d, c):
            return True
    # quick contradiction: opposite constraints
    while best:
        eq = None
        for key, (d, c) in best.items():
            nk = tuple(sorted((k, -v) for k, v in d.items()))
            o = best.get(nk)
            if o is not None and c + o[1] < 0:
                return True
            if o is not None and c + o[1] == 0 and eq is None:
                for k, v in d.items():
                    if v == 1 or v == -1:
                        eq = k, v, d, c
                        break
        if eq is not None:
            # an equality: substitute (exact over the integers)
            k, v, d, c = eq
            rest = {}
            for d2, c2 in best.values():
                m = d2.get(k, 0)
                if m:
                    f = -m * v
                    d2 = dict(d2)
                    for x, y in d.items():
                        d2[x] = d2.get(x, 0) + y * f
                    d2 = {x: y for x, y in d2.items() if y}
                    c2 = c2 + c * f
                    if not d2:
                        if c2 < 0:
                            return True
                        continue
                if put(rest, d2, c2):
                    return True
            best = rest
            continue
        count = {}
        for d, c in best.values():
            for k, v in d.items():
                p = count.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        k = min(count, key=lambda x: (count[x][0] * count[x][1] - count[x][0] - count[x][1], x))
        pos, negs, rest = [], [], {}
        for key, (d, c) in best.items():
            v = d.get(k, 0)
            if v > 0:
                pos.append((d, c, v))
            elif v < 0:
                negs.append((d, c, -v))
            else:
                rest[key] = (d, c)
        for d1, c1, v1 in pos:
            for d2, c2, v2 in negs:
                g = gcd(v1, v2)
                a, b = v2 // g, v1 // g
                d = {x: y * a for x, y in d1.items()}
                for x, y in d2.items():
                    d[x] = d.get(x, 0) + y * b
                d = {x: y for x, y in d.items() if y}
                if put(rest, d, c1 * a + c2 * b):
                    return True
        best = rest
        if len(best) > MAXC:
            return False
    return False


MRO = {}        # class name -> names of its bases (and itself), for program classes


class Facts(object):
    __slots__ = ('ge', 'ne', 'preds', 'words', '_cache', '_rep', '_depth')

    def __init__(self):
        self.ge = ()          # tuple of Lin (>= 0)
        self.ne = ()          # tuple of Lin (!= 0)
        self.preds = {}       # Atom -> bool
        self.words = ()       # (region, offset, value of the 8 bytes there, unsigned)
        self._cache = {}
        self._rep = None
        self._depth = 0

    def copy(self):
        f = Facts()
        f.ge, f.ne, f.preds, f.words = self.ge, self.ne, dict(self.preds), self.words
        return f

    def __repr__(self):
        l = ['%s >= 0' % show(x) for x in self.ge] + ['%s != 0' % show(x) for x in self.ne]
        l += [('' if v else 'not ') + show(k) for k, v in self.preds.items()]
        return '{%s}' % ', '.join(l)

    def literals(self):
        out = [Cond('ge0', x) for x in self.ge]
        out += [Cond('not', Cond('eq0', x)) for x in self.ne]
        out += [Cond('p', k) if v else Cond('not', Cond('p', k)) for k, v in self.preds.items()]
        return out

    # -- assumptions
    def assume(self, c, pos=True):
        """list of consistent Facts refining self with c"""
        out = []
        for conj in dnf(c, pos):
            f = self.copy()
            ok = True
            for lit, p in conj:
                if not f._add(lit, p):
                    ok = False
                    break
            if ok and f.consistent_ne():
                out.append(f)
        return out

    def _add(self, lit, p):
        if lit.op == 'ge0':
            x = lit.arg if p else sub(neg(lit.arg), 1)
            return self._add_ge(x)
        if lit.op == 'eq0':
            if p:
                return self._add_ge(lit.arg) and self._add_ge(neg(lit.arg))
            x = lit.arg
            if self.entails_ge(x):
                return self._add_ge(sub(x, 1))
            if self.entails_ge(neg(x)):
                return self._add_ge(sub(neg(x), 1))
            self.ne = self.ne + (x,)
            self._cache = {}
            return True
        if lit.op == 'p':
            old = self.preds.get(lit.arg)
            if old is not None:
                return old == p
            if not self._pred_ok(lit.arg, p):
                return False
            self.preds[lit.arg] = p
            self._rep = None
            self._cache = {}
            return True
        raise AssertionError(lit.op)

    def _class_ok(self, a, p):
        v = a.args[0]
        for k, val in self.preds.items():
            if k is a or k.op not in ('isinst', 'classin') or k.args[0] is not v:
                continue
            x, px, y, py = a, p, k, val
            if x.op == 'classin':
                x, px, y, py = y, py, x, px
            if x.op == 'classin' or not isinstance(x.args[1], str) or not MRO.get(x.args[1]):
                continue
            if y.op == 'classin':
                cs = [c for c in y.args[1] if MRO.get(c)]
                if py and len(cs) == len(y.args[1]) and not any((x.args[1] in MRO[c]) == px for c in cs):
                    return False
            elif isinstance(y.args[1], str) and MRO.get(y.args[1]):
                A, B = x.args[1], y.args[1]
                if px and not py and B in MRO[A] or py and not px and A in MRO[B]:
                    return False
                if px and py and A not in MRO[B] and B not in MRO[A]:
                    return False
        return True

    def _pred_ok(self, a, p):
        """built-in consistency of predicates"""
        if a.op in ('isinst', 'classin') and not self._class_ok(a, p):
            return False
        if p and a.op == 'eqc':           # v == constant, exclusive
            v, c = a.args
            for k, val in self.preds.items():
                if val and k.op == 'eqc' and k.args[0] is v and k.args[1] != c:
                    return False
                if val and k.op == 'isnone' and k.args[0] is v and c is not None:
                    return False
        if p and a.op == 'isnone':
            for k, val in self.preds.items():
                if val and k.op in ('isinst', 'eqc', 'truth') and k.args[0] is a.args[0]:
                    return False
        if p and a.op in ('isinst', 'truth'):
            for k, val in self.preds.items():
                if val and k.op == 'isnone' and k.args[0] is a.args[0]:
                    return False
        return True

    def _add_ge(self, x):
        if not isinstance(x, (Lin, Atom)):
            return x >= 0
        x = as_lin(x)
        if self.entails_ge(x):
            return True
        if self.entails_ge(sub(neg(x), 1)):
            return False
        self.ge = self.ge + (x,)
        self._cache = {}
        self._rep = None
        return True

    def consistent_ne(self):
        for x in self.ne:
            if self.entails_ge(x) and self.entails_ge(neg(x)):
                return False
        return True

    # -- entailment
    def entails_ge(self, x):
        if not isinstance(x, (Lin, Atom)):
            return x >= 0
        x = as_lin(x)
        lo, hi = rng(x)
        if lo is not None and lo >= 0:
            return True
        k = (x, self._depth > 0)
        r = self._cache.get(k)
        if r is None:
            r = self._entails_ge(x)
            self._cache[k] = r
        return r

    def _entails_ge(self, x):
        if self._try(x):
            return True
        # use disequalities as a case split on x's own sign boundary
        for n in self.ne:
            for y in (n, neg(n)):
                # if y >= 0 is known then y >= 1
                if _shares(y, x) and y != x and self._try_with(y):
                    if self._try(x, extra=[sub(y, 1)]):
                        return True
        return False

    def _try_with(self, y):
        k = ('nn', y, self._depth > 0)
        r = self._cache.get(k)
        if r is None:
            r = self._cache[k] = self._try(y)
        return r

    def _try(self, x, extra=()):
        """is x >= 0 entailed by the inequalities?"""
        goal = sub(neg(x), 1)          # negation, must be unsat
        if not isinstance(goal, Lin):
            return goal < 0
        cons = list(self.ge) + list(extra) + [goal]
        # connected component of the goal
        rel = set(goal_atoms(goal))
        pool = [(c, goal_atoms(c)) for c in cons[:-1]]
        used = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, at in pool:
                if at & rel:
                    used.append(c)
                    rel |= at
                    changed = True
                else:
                    rest.append((c, at))
            pool = rest
        system = [lin(goal)] + [lin(c) for c in used]
        allat = set()
        for d, _ in system:
            allat |= set(d)
        self._depth += 1
        try:
            system += structural(allat, self)
        finally:
            self._depth -= 1
        sysn = []
        for d, c in system:
            sysn.append(({a.id: v for a, v in d.items()}, c))
        return fm_unsat(sysn)

    def entails(self, c):
        """does every model satisfy the condition?"""
        if isinstance(c, bool):
            return c
        if c.op == 'ge0':
            return self.entails_ge(c.arg)
        if c.op == 'eq0':
            return self.entails_ge(c.arg) and self.entails_ge(neg(c.arg))
        if c.op == 'p':
            return self.preds.get(c.arg) is True or \
                (self.preds.get(c.arg) is None and not self._copy_add(c, True) is None and False)
        if c.op == 'not':
            x = c.arg
            if x.op == 'ge0':
                return self.entails_ge(sub(neg(x.arg), 1))
            if x.op == 'eq0':
                if self.entails_ge(sub(x.arg, 1)) or self.entails_ge(sub(neg(x.arg), 1)):
                    return True
                if x.arg in self.ne or neg(x.arg) in self.ne:
                    return True
                return not self.assume(x)
            if x.op == 'p':
                if self.preds.get(x.arg) is False:
                    return True
                return self.preds.get(x.arg) is None and self._copy_add(x, True) is None
            if x.op == 'not':
                return self.entails(x.arg)
        return not self.assume(c, False)

    def _copy_add(self, lit, p):
        f = self.copy()
        return f if f._add(lit, p) else None

    def equal_int(self, a, b):
        d = sub(a, b)
        if not isinstance(d, Lin):
            return d == 0
        return self.entails_ge(d) and self.entails_ge(neg(d)) or self._congruent(d)

    def known_word(self, region, fmt, off):
        """value of a read inside a word that was given"""
        w = FMTWIDTH.get(fmt)
        for r, o, v in self.words:
            if r != region:
                continue
            d = sub(off, o)
            if isinstance(d, (Lin, Atom)):
                for c in range(0, 8, w):
                    if self.equal_int(d, c):
                        d = c
                        break
                else:
                    continue
            if 0 <= d <= 8 - w:
                x = mod(floordiv(v, 2 ** (8 * d)), 2 ** (8 * w)) if w < 8 else v
                if fmt.islower():
                    x = sub(x, scale(floordiv(x, 2 ** (8 * w - 1)), 2 ** (8 * w)))
                return x
        return None

    def known_read(self, region, fmt, off):
        """a read of the same bytes that the facts already talk about"""
        cands = []
        for x in list(self.ge) + list(self.ne):
            for a in atoms_of(x):
                if a.op == 'rd' and a.args[0] == region and a.args[1] == fmt and a not in cands:
                    if a.args[2] == off:
                        return as_lin(a)
                    cands.append(a)
        for a in cands:
            if isinstance(a.args[2], (Lin, Atom)) and self.equal_int(a.args[2], off):
                return as_lin(a)
        return None

    def same(self, a, b):
        """equality of values up to congruence"""
        if a is b or a == b:
            return True
        if is_int(a) and is_int(b):
            return self.equal_int(a, b)
        if isinstance(a, Atom) and isinstance(b, Atom):
            return a.op == b.op and len(a.args) == len(b.args) and all(
                self.same(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return False

    def _congruent(self, d):
        """d == 0 after identifying applications of one symbol to equal arguments"""
        terms = list(d.terms)
        for i, (a, c) in enumerate(terms):
            for b, e in terms[i + 1:]:
                if c + e == 0 and a.op == b.op and a.op not in ('fdiv', 'sym', 'mul') and a.args \
                   and len(a.args) == len(b.args) and all(self.same(x, y) for x, y in zip(a.args, b.args)):
                    r = sub(d, scale(sub(as_lin(a), as_lin(b)), c))
                    return self.equal_int(r, 0)
        return False

    def saturated(self):
        """with what follows from equal byte strings: equal lengths, equal reads inside them.
        None if that is inconsistent"""
        todo = [k for k, v in self.preds.items() if v and k.op == 'eq' and len(k.args) == 2 and
                all(isinstance(x, Atom) and x.typ == 'bytes' for x in k.args)]
        if not todo:
            return self
        f = self.copy()
        def part(x):
            if x.op == 'slice' and len(x.args) == 3 and is_int(x.args[1]) and is_int(x.args[2]):
                return x.args
            return None
        for k in todo:
            a, b = part(k.args[0]), part(k.args[1])
            if a is None or b is None:
                continue
            na, nb = sub(a[2], a[1]), sub(b[2], b[1])
            if not f._add(Cond('eq0', sub(na, nb)), True):
                return None
            for x, y, n in ((a, b, na), (b, a, nb)):
                reads = []
                for e in list(f.ge) + list(f.ne):
                    for r in atoms_of(e):
                        if r.op == 'rd' and r.args[0] == x[0] and r not in reads:
                            reads.append(r)
                for r in reads:
                    d = sub(r.args[2], x[1])
                    if f.entails_ge(d) and f.entails_ge(sub(n, add(d, FMTWIDTH.get(r.args[1], 8)))):
                        r2 = f.known_read(y[0], r.args[1], add(y[1], d))
                        if r2 is not None and not f._add(Cond('eq0', sub(as_lin(r), r2)), True):
                            return None
        return f if f.consistent_ne() else None

    def merge(self, other):
        """conjunction, or None if inconsistent"""
        f = self.copy()
        for l in other.literals():
            if l.op == 'not':
                ok = f._add(l.arg, False)
            else:
                ok = f._add(l, True)
            if not ok:
                return None
        if not f.consistent_ne():
            return None
        return f


def _shares(a, b):
    return bool(goal_atoms(a) & goal_atoms(b))


_ga = {}


def goal_atoms(x):
    """atoms relevant for a linear constraint, incl. the bases of fdiv chains"""
    r = _ga.get(x)
    if r is None:
        r = frozenset(_base_atoms(x))
        _ga[x] = r
    return r


def _base_atoms(x):
    out = set()
    for a, _ in as_lin(x).terms if isinstance(as_lin(x), Lin) else ():
        out.add(a)
        if a.op == 'fdiv':
            out |= set(_base_atoms(a.args[0]))
        if a.op == 'mul':
            out |= set(a.args)
            for y in a.args:
                out |= set(_base_atoms(as_lin(y))) if y.op in ('fdiv',) else set()
        if a.op in ('min', 'max'):
            for y in a.args:
                if isinstance(y, Lin):
                    out |= set(_base_atoms(y))
    return out


def structural(atoms, facts):
    """constraints that follow from what the atoms mean"""
    out = []
    done = set()
    work = list(atoms)
    seen_div = {}
    while work:
        a = work.pop()
        if a in done:
            continue
        done.add(a)
        if a.lo is not None:
            out.append(({a: 1}, -a.lo))
        if a.hi is not None:
            out.append(({a: -1}, a.hi))
        if a.op == 'fdiv':
            b, k = a.args
            seen_div.setdefault(b, set()).add(k)
            d, _ = lin(b)
            work += [x for x in d if x not in done]
            if (a.lo is None or a.hi is None) and k >= 2 ** 7 and facts._depth < 2:
                # a quotient of a number that the facts confine to one period
                for c in (0, -1):
                    if facts.entails_ge(sub(b, c * k)) and facts.entails_ge(sub(c * k + k - 1, b)):
                        out += [({a: 1}, -c), ({a: -1}, c)]
                        break
        elif a.op in ('min', 'max'):
            for y in a.args:
                # min <= y ; max >= y
                s = 1 if a.op == 'min' else -1
                d, c = lin(sub(scale(y, s), scale(as_lin(a), s)))
                out.append((d, c))
                work += [x for x in d if x not in done]
        elif a.op == 'fdivv':
            pass
        elif a.op == 'xor' and isinstance(a.args[1], int) and facts._depth < 4:
            x, k = a.args
            up = facts.entails_ge(x) and k >= 0
            for n in (7, 8, 15, 16, 31, 32, 63, 64):
                if -2 ** n <= k < 2 ** n and facts.entails_ge(add(x, 2 ** n)) and \
                        facts.entails_ge(sub(2 ** n - 1, x)):
                    out.append(({a: 1}, 0 if up else 2 ** n))
                    out.append(({a: -1}, 2 ** n - 1))
                    break
        elif a.op == 'modv' and facts._depth < 2:
            n = a.args[1]
            if facts.entails_ge(sub(n, 1)):
                out.append(({a: 1}, 0))
                d, c = lin(sub(sub(n, as_lin(a)), 1))
                out.append((d, c))
                work += [x for x in d if x not in done]
    for b, ks in seen_div.items():
        order = [1] + sorted(ks)
        for i in range(len(order)):
            for j in range(i + 1, len(order)):
                k1, k2 = order[i], order[j]
                if k2 % k1:
                    continue
                if j > i + 1 and order[i + 1] != k1 and k2 % order[i + 1] == 0 and order[i+1] % k1 == 0:
                    continue
                r = k2 // k1
                x = as_lin(b) if k1 == 1 else _fd(b, k1)
                y = _fd(b, k2)
                dlt = sub(x, scale(y, r))
                d, c = lin(dlt)
                out.append((d, c))
                d, c = lin(sub(r - 1, dlt))
                out.append((d, c))
    # products: a*b vs c*b with b >= 0 and known order between a and c
    muls = [a for a in done if a.op == 'mul'] if facts._depth < 2 else []
    for m in muls:
        for y in set(m.args):
            rest = list(m.args)
            rest.remove(y)
            cof = _cof(rest)
            yl = as_lin(y)
            ynn = facts.entails_ge(yl)
            if ynn and facts.entails_ge(cof):
                out.append(({m: 1}, 0))
            if not ynn:
                continue
            # y * cof compared with y * other (other: another cofactor or a constant)
            for m2 in list(muls) + [y]:
                if m2 is m:
                    continue
                if m2 is y:
                    # y * cof >= y * c  for constant bounds of cof
                    lo, hi = rng(cof)
                    if facts.entails_ge(sub(cof, 1)):
                        lo = max(lo or 1, 1)
                    if lo is not None:
                        out.append(({m: 1, y: -lo} if lo else {m: 1}, 0))
                    if hi is not None:
                        out.append(({m: -1, y: hi} if hi else {m: -1}, 0))
                    continue
                if y not in m2.args:
                    continue
                rest2 = list(m2.args)
                rest2.remove(y)
                cof2 = _cof(rest2)
                # cof <= cof2 - d  =>  m <= m2 - d*y
                for d in (1, 0):
                    if facts.entails_ge(sub(sub(cof2, cof), d)):
                        dd = {m: -1, m2: 1}
                        if d:
                            dd[y] = dd.get(y, 0) - d
                        out.append((dd, 0))
                        break
    return out


def _fd(b, k):
    from .terms import floordiv_atom
    return floordiv_atom(b, k)


def _cof(rest):
    if len(rest) == 1:
        return as_lin(rest[0])
    m = rest[0]
    for x in rest[1:]:
        m = monomial(m, x)
    return as_lin(m)
