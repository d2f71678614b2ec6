"""Bounds of the number of elements of a sequence, read off its value graph.

A loop contributes between (pushes per round) times (rounds) elements, where
the number of rounds comes from a counter that one of the exit conditions
compares with a bound fixed on entry.  Bounds are integer value graphs over
the inputs, so that they can be compared with what a property demands."""
from node import *
import node as N


class NoBound(Exception):
    pass


def clean(n, memo={}):
    """No part of it is computed by a loop or unknown."""
    r = memo.get(n.id)
    if r is None:
        r = n.op not in ('after', 'mu', 'opq') and not (n.op == 'undef' and len(n.a) == 1) and all(clean(x) for x in n.a if isinstance(x, Node))
        if n.op == 'after' or n.op == 'at' and not all(clean(x) for x in n.a if isinstance(x, Node)): r = False
        memo[n.id] = r
    return r


def mx(a, b): return ite(lt(a, b), b, a)
def mn(a, b): return ite(lt(a, b), a, b)


def disjuncts(c):
    if c.op == 'or': return disjuncts(c.a[0]) + disjuncts(c.a[1])
    if c.op == 'not' and c.a[0].op == 'and': return disjuncts(not_(c.a[0].a[0])) + disjuncts(not_(c.a[0].a[1]))
    return [c]


def conjuncts(c):
    if c.op == 'and': return conjuncts(c.a[0]) + conjuncts(c.a[1])
    if c.op == 'not' and c.a[0].op == 'or': return conjuncts(not_(c.a[0].a[0])) + conjuncts(not_(c.a[0].a[1]))
    return [c]


def step(nx, mu):
    """The constant a counter advances by, if it does."""
    k = sub(nx, mu)
    if isnum(k): return k.a[0]
    if nx.op == 'add' and mu in nx.a:
        o = [x for x in nx.a if x is not mu]
        if len(o) == 1 and isnum(o[0]): return o[0].a[0]
    return None


def one(e): return (frozenset([(TRUE, e)]), frozenset([(TRUE, e)]))


def under(c, a): return frozenset((and_(c, g), x) for g, x in a if and_(c, g) is not FALSE)


def reals(c):
    """Made of comparisons of reals only."""
    if c.op in ('and', 'or', 'not'): return all(reals(x) for x in c.a)
    return c.op in ('lt', 'le', 'eq') and c.a[0].sort == 'f'


CAP = 64


class Sizes:
    """Bounds are sets of value graphs: at least the least of the first set, at
    most the greatest of the second."""

    def __init__(self, facts=None):
        self.facts = facts or {}
        self.memo = {}
        self.loops = set()
        self.why = []
        self.exact = True  # the upper bound is reached unless a comparison of reals ends a loop before

    def both(self, f, a, b):
        r = frozenset((and_(g, h), f(x, y)) for g, x in a for h, y in b if and_(g, h) is not FALSE)
        if len(r) > CAP: raise NoBound('too many cases')
        return r

    def plus(self, a, b): return (self.both(add, a[0], b[0]), self.both(add, a[1], b[1]))
    def minus(self, a, b): return (self.both(sub, a[0], b[1]), self.both(sub, a[1], b[0]))
    def shift(self, a, k): return self.plus(a, one(num(k, 'i'))) if k else a
    def hull(self, a, b): return (a[0] | b[0], a[1] | b[1])

    def atleast(self, a, k):
        k = num(k, 'i')
        f = lambda s: frozenset(y for g, x in s for y in under(g, {(lt(x, k), k), (not_(lt(x, k)), x)}))
        return (f(a[0]), f(a[1]))

    def least(self, f, a, b):
        """Every least (greatest) of the two, and when it is that."""
        r = frozenset()
        for h, x in a:
            for k, y in b:
                d, hk = f(x, y), and_(h, k)
                if hk is FALSE: continue
                if d.op == 'ite': r |= under(and_(hk, d.a[0]), {(TRUE, d.a[1])}) | under(and_(hk, not_(d.a[0])), {(TRUE, d.a[2])})
                else: r |= {(hk, d)}
        if len(r) > CAP: raise NoBound('too many cases')
        return r

    def times(self, k, a): return (frozenset((g, mul(num(k, 'i'), x)) for g, x in a[0]), frozenset((g, mul(num(k, 'i'), x)) for g, x in a[1]))

    def pick(self, c, a, b):
        if clean(c): return (under(c, a[0]) | under(not_(c), b[0]), under(c, a[1]) | under(not_(c), b[1]))
        self.exact = False
        return self.hull(a, b)

    def seq(self, s):
        r = self.memo.get(s.id)
        if r is None: r = self.memo[s.id] = self._seq(s)
        return r

    def _seq(self, s):
        f = self.facts.get(size(s).id)
        if f: return f
        o = s.op
        if o == 'sseq': return one(size(s))
        if o == 'sempty': return one(num(0, 'i'))
        if o == 'push': return self.shift(self.seq(s.a[0]), 1)
        if o == 'set': return self.seq(s.a[0])
        if o in ('popf', 'popb'):
            a, b = self.seq(s.a[0])
            self.exact = False
            return self.atleast(self.shift((a, a), -1), 0)[0], b
        if o == 'ite': return self.pick(s.a[0], self.seq(s.a[1]), self.seq(s.a[2]))
        if o == 'after':
            L, x = s.a[0], s.a[1]
            # the last round may have been left half way
            m = self.root(L, x)
            for mu, init, nx in L.mus:
                if mu is m:
                    r = self.seq(init)
                    a, b = self.per(m, nx)
                    self.loops.add(L.where)
                    if a < 0: raise NoBound('a loop shortens the sequence')
                    full = self.rounds(L) if a or b else None
                    if full and full[1] is None: raise NoBound('no bound for the rounds of the loop at %s (%s)' % (L.where, '; '.join(self.why[-2:])))
                    ends = self.ends(L, m, x)
                    if ('early', L) in self.facts: ends = [(True, k) for e, k in ends]
                    if len({k[1] - e * b for e, k in ends}) > 1: self.exact = False
                    if full:
                        rl, rh = full
                        less = all(e for e, k in ends)  # one round fewer
                        if any(e for e, k in ends): rl = one(num(0, 'i'))[0]
                        if less: rh = frozenset((g, add(y, num(-1, 'i'))) for g, y in rh if not isnum(y) or y.a[0] > 0) or one(num(0, 'i'))[0]
                        r = self.plus(r, (self.times(a, (rl, rl))[0], self.times(b, (rh, rh))[1]))
                        more = max(k[1] - (b if e and not less else 0) for e, k in ends)
                    else: more = max(k[1] for e, k in ends)
                    return (self.shift(r, min(k[0] for e, k in ends))[0], self.shift(r, more)[1])
            raise NoBound('not a sequence carried by the loop at ' + L.where)
        raise NoBound('sequence made by ' + o)

    def counters(self, L):
        """The conditions on which a counter leaves the loop."""
        mus = {z for z, _, _ in L.mus}
        out = []
        for d in disjuncts(L.done):
            c = d.a[0] if d.op == 'not' else d
            if c.op in ('lt', 'le') and c.a[0].sort == 'i' and any(mu in c.a and mu.sort == 'i' and step(nx, mu) for mu, _, nx in L.mus): out.append(d)
        return out

    def ends(self, L, m, x, path=()):
        """How the loop may be left: (before the counter says so, elements the
        last round appended)."""
        if x.op == 'ite' and x is not m:
            return self.ends(L, m, x.a[1], path + tuple(conjuncts(x.a[0]))) + self.ends(L, m, x.a[2], path + tuple(conjuncts(not_(x.a[0]))))
        cs = self.counters(L)
        early = len(cs) == 1 and not_(cs[0]) in path
        return [(early, self.per(m, x))]

    def root(self, L, x):
        ms = {mu.id for mu, _, _ in L.mus if mu.sort == 'seq'}
        found = {}

        def roots(n):
            if n.id in ms: found[n.id] = n
            elif n.op in ('push', 'set'): roots(n.a[0])
            elif n.op == 'ite': roots(n.a[1]); roots(n.a[2])
            elif n.op == 'after':
                for mu, init, nx in n.a[0].mus:
                    if mu is n.a[1]: roots(init)
            else: raise NoBound('result of a loop made by ' + n.op)
        roots(x)
        if len(found) != 1: raise NoBound('result of a loop made of several')
        return next(iter(found.values()))

    def per(self, m, n):
        """Elements one round appends."""
        o = n.op
        if n is m: return (0, 0)
        if o == 'push':
            a, b = self.per(m, n.a[0]); return (a + 1, b + 1)
        if o == 'set': return self.per(m, n.a[0])
        if o == 'ite':
            a, b = self.per(m, n.a[1]), self.per(m, n.a[2])
            if a != b and not reals(n.a[0]): self.exact = False
            return (min(a[0], b[0]), max(a[1], b[1]))
        if o == 'after':
            for mu, init, nx in n.a[0].mus:
                if mu is n.a[1]:
                    if self.per(mu, nx) == (0, 0): return self.per(m, init)
            raise NoBound('nested loop at ' + n.a[0].where)
        raise NoBound('round made by ' + o)

    def rounds(self, L):
        zero = one(num(0, 'i'))[0]
        lo, hi = zero, None
        ds = disjuncts(L.done)
        for d in ds:
            if d.op == 'not' and d.a[0].op in ('lt', 'le'):
                x, y = d.a[0].a[1], d.a[0].a[0]
                strict = d.a[0].op == 'le'
            elif d.op in ('lt', 'le'): x, y, strict = d.a[0], d.a[1], d.op == 'lt'
            else:
                self.exact = False
                continue
            if x.sort == 'f': continue
            # leaves once x < y (or x <= y): y counts up or x counts down
            for mu, init, nx in L.mus:
                if mu.sort != 'i' or mu is not x and mu is not y: continue
                k = step(nx, mu)
                try:
                    if mu is y and k and k > 0 and not N.free_mus(x) & {z for z, _, _ in L.mus}: r = self.minus(self.int(x), self.int(init))
                    elif mu is x and k and k < 0 and not N.free_mus(y) & {z for z, _, _ in L.mus}: r = self.minus(self.int(init), self.int(y))
                    else:
                        self.exact = False
                        continue
                    if strict: r = self.shift(r, 1)
                    r = self.atleast(r, 0)
                    if abs(k) != 1: r = (zero, r[1])
                except NoBound as e: self.why.append(str(e)); continue
                if hi is None: hi = r[1]
                else: hi = self.least(mn, hi, r[1])
                if len(ds) == 1: lo = r[0]
        return lo, hi

    def int(self, e):
        if clean(e): return one(e)
        f = self.facts.get(e.id)
        if f: return f
        o = e.op
        if o == 'add':
            r = one(num(0, 'i'))
            for x in e.a: r = self.plus(r, self.int(x))
            return r
        if o == 'sub': return self.minus(self.int(e.a[0]), self.int(e.a[1]))
        if o == 'neg': return self.minus(one(num(0, 'i')), self.int(e.a[0]))
        if o == 'size': return self.seq(e.a[0])
        if o == 'ite':
            c, a, b = e.a
            f = None
            if not clean(c):
                if c.op == 'not' and c.a[0].op == 'lt': c, a, b = c.a[0], b, a
                if c.op in ('lt', 'le') and c.a == (a, b): f = mn
                if c.op in ('lt', 'le') and c.a == (b, a): f = mx
            if f:
                a, b = self.int(a), self.int(b)
                return (self.least(f, a[0], b[0]), self.least(f, a[1], b[1]))
            return self.pick(e.a[0], self.int(e.a[1]), self.int(e.a[2]))
        raise NoBound('number made by ' + o)


def flags(n, memo=None):
    """Conditions in it that a loop computed: as few as settle the rest."""
    out = {}
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen or clean(x): continue
        seen.add(x.id)
        o = x.op
        if o == 'ite':
            c = x.a[0].a[0] if x.a[0].op == 'not' else x.a[0]
            if not (c.op in ('lt', 'le') and set(c.a) == {x.a[1], x.a[2]}):  # not a minimum or maximum
                for y in atoms(x.a[0]): out[y.id] = y
            st += x.a[1:]
        elif o in ('push', 'set', 'popf', 'popb', 'size'): st.append(x.a[0])
        elif o == 'after':
            L, m = x.a
            st += [i for mu, i, nx in L.mus if mu.sort == 'seq']
            for d in disjuncts(L.done):
                c = d.a[0] if d.op == 'not' else d
                if c.op == 'lt': st += [y for y in c.a if not N.free_mus(y)]
        elif o in ('add', 'sub', 'neg', 'mul'): st += [y for y in x.a if isinstance(y, Node)]
    return list(out.values())


def atoms(c):
    if c.op in ('and', 'or'): return atoms(c.a[0]) + atoms(c.a[1])
    if c.op == 'not': return atoms(c.a[0])
    if c.op == 'ite': return atoms(c.a[0]) + atoms(c.a[1]) + atoms(c.a[2])
    return [] if clean(c) else [c]


def cases(e, facts=(), depth=0):
    """Splits on the loop-computed conditions of an integer: yields (e', facts)."""
    fl = [] if depth > 6 else flags(e)
    fl = [f for f in fl if not N.free_mus(f)]
    if not fl: yield e, dict(facts); return
    f = min(fl, key=lambda x: (x.op != 'after', len(reach([x]))))
    for v in (TRUE, FALSE):
        fa = dict(facts)
        if f.op == 'after' and v is TRUE:
            cs = conjuncts(f.a[1])
            if any(not_(d) in cs for d in disjuncts(f.a[0].done)): fa[('early', f.a[0])] = True
        z = empty(f, v)
        mp = {f: v}
        if z is not None:
            s, is_empty = z
            if is_empty: fa[s.id] = one(num(0, 'i'))
            else:
                try: fa[s.id] = Sizes(fa).atleast(Sizes(fa).int(s), 1)
                except NoBound: pass
        yield from cases(subst(e, mp), fa, depth + 1)


def empty(f, v):
    """size == 0 and its variants: (size, whether it is empty)"""
    if f.op == 'eq':
        for a, b in (f.a, f.a[::-1]):
            if isnum(b) and b.a[0] == 0 and a.op == 'size': return a, v is TRUE
    if f.op == 'lt':
        if isnum(f.a[0]) and f.a[0].a[0] == 0 and f.a[1].op == 'size': return f.a[1], v is FALSE
        if isnum(f.a[1]) and f.a[1].a[0] == 1 and f.a[0].op == 'size': return f.a[0], v is TRUE
    return None
