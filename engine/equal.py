"""Decides equality of two value graphs by random interpretation.

Every value is interpreted in the field F_p (p = 2^61-1) at points derived from
a seed, so that algebraically equal values receive equal fingerprints; other
operations are interpreted as random functions.  Conditions are resolved by a
decision-diagram descent over sign atoms held in an interval / linear
inequality domain.  Loops are compared by colour refinement of their carried
cells and, failing that, on their first iterations.

Verdicts: ('eq',), ('diff', case), ('unknown', why)."""
import hashlib, os, random, time
from fractions import Fraction
from node import *
import node as N

p = (1 << 61) - 1
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
_sc = {}


def sint(s):
    r = _sc.get(s)
    if r is None:
        r = int.from_bytes(hashlib.blake2b(('%d|%s' % (SEED, s)).encode(), digest_size=8).digest(), 'big') % p
        _sc[s] = r
    return r


def H(*xs):
    h = 0x1234567
    return (hash(tuple(xs) + (SEED,)) * 0x9E3779B97F4A7C15 + 0x7F4A7C15) % p


def nq(q):
    return q if type(q) is int else (q.numerator if q.denominator == 1 else q)


def ffrac(q):
    if type(q) is int: return q % p
    return q.numerator % p * pow(q.denominator % p, p - 2, p) % p


def ffrac_(q): return q.numerator % p * pow(q.denominator % p, p - 2, p) % p


class Split(Exception):
    def __init__(self, kind, key, info=None):
        self.kind = kind; self.key = key; self.info = info


class Bound(Exception):
    pass


class DivZero(Exception):
    pass


class Skip(Exception):
    """The case is a don't-care or cannot be judged."""


F_OPQ, F_UNDEF, F_LOOP, F_DIV0 = 1, 2, 4, 8


class Base:
    __slots__ = ('fp', 'desc', 'flags', 'lo', 'hi', 'int', 'fns', 'sub', 'sym', 'inv')


class V:
    """Polynomial over bases: {monomial: coefficient}; monomial = sorted tuple of base fps."""
    __slots__ = ('t', '_fp')

    def __init__(self, t): self.t = t; self._fp = None


SPECIAL = ('nan', 'inf', 'ninf')


class SeqV:
    __slots__ = ('base', 'pops', 'items', 'sz')

    def __init__(self, base, pops, items):
        self.base = base; self.pops = pops; self.items = items


class Ctx:
    __slots__ = ('iv', 'bools', 'cls', 'over', 'cons', 'log', 'soft', 'nsub')

    def __init__(self):
        self.iv = {}; self.bools = {}; self.cls = {}; self.over = {}; self.cons = []; self.log = []; self.soft = {}; self.nsub = 0

    def copy(self):
        c = Ctx()
        c.iv = dict(self.iv); c.bools = dict(self.bools); c.cls = dict(self.cls); c.over = dict(self.over)
        c.cons = list(self.cons); c.log = list(self.log); c.soft = dict(self.soft); c.nsub = self.nsub
        return c


MAXT = 30


class Decider:
    def __init__(self, ieee=(), K=3, budget=6000, tlimit=60.0, bounds=None, prov=None, where=None, tags=None):
        self.tags = tags          # symbol name -> highest value of a tag (-1: any), or None
        self.bases = {}
        self.vt = {}
        self.invof = {}
        self.ieee = ieee          # predicate on symbol names (or empty)
        self.K = K
        self.budget = budget
        self.tlimit = tlimit
        self.userbounds = bounds or {}
        self.cases = 0
        self.pairs = 0
        self.stats = {'identical': 0, 'fingerprint': 0, 'cases': 0, 'expanded': 0}
        self.srep = {}            # sequence fingerprint -> (rest, item, fields of the item)
        self.addtab = {}; self.addvars = {}; self.addvp = []

    # -------------------------------------------------------------- bases
    def base(self, fp, desc, flags=0, lo=None, hi=None, isint=False, fns=frozenset(), sub=None, sym=None):
        b = self.bases.get(fp)
        if b is None:
            b = Base(); b.fp = fp; b.desc = desc; b.flags = flags; b.lo = lo; b.hi = hi; b.int = isint; b.fns = fns; b.sub = sub; b.sym = sym; b.inv = None
            self.bases[fp] = b
        return b

    def vbase(self, b):
        v = self.vt.get(b.fp)
        if v is None: v = self.vt[b.fp] = V({(b.fp,): 1}); v._fp = b.fp
        return v

    def fp(self, v):
        if v._fp is None:
            s = 0
            for m, c in v.t.items():
                x = ffrac(c)
                for b in m: x = x * b % p
                s += x
            v._fp = s % p
        return v._fp

    def fpx(self, v):
        """fingerprint of any evaluated value"""
        if isinstance(v, V): return self.fp(v)
        if isinstance(v, bool): return H(sint('bool'), int(v))
        if isinstance(v, str): return sint('#' + v)
        if isinstance(v, SeqV): return self.fpseq(v)
        if isinstance(v, tuple): return H(*[self.fpx(x) for x in v])
        raise TypeError(v)

    def fpseq(self, s):
        h = s.base.fp if s.base is not None else sint('#empty')
        if s.base is not None and s.pops: h = H(sint('pops'), h, s.pops)
        for it in s.items: h = H(sint('push'), h, it[0])
        return h

    def flags(self, v):
        f = 0
        if isinstance(v, V):
            for m in v.t:
                for b in m: f |= self.bases[b].flags
        elif isinstance(v, SeqV):
            if s_base(v): f |= v.base.flags
            for it in v.items: f |= it[1]
        elif isinstance(v, tuple):
            for x in v: f |= self.flags(x)
        return f

    def fnsof(self, v):
        r = frozenset()
        if isinstance(v, V):
            for m in v.t:
                for b in m: r |= self.bases[b].fns
        elif isinstance(v, SeqV):
            if v.base is not None: r |= v.base.fns
            for it in v.items: r |= it[2]
        return r

    # -------------------------------------------------------------- polynomials
    # values are interned by fingerprint; coefficients are ints where integral
    def cst(self, q):
        q = nq(q)
        f = ffrac(q)
        v = self.vt.get(f)
        if v is None: v = self.vt[f] = V({(): q} if q else {}); v._fp = f
        return v

    def isc(self, v): return not v.t or (len(v.t) == 1 and () in v.t)

    def cval(self, v): return v.t.get((), 0)

    def collapse(self, t, f):
        v = V(t); v._fp = f
        if len(t) > MAXT:
            b = self.base(f, '<%d-term expression>' % len(t), self.flags(v), fns=self.fnsof(v))
            v = V({(b.fp,): 1}); v._fp = f
        self.vt[f] = v
        return v

    def vadd(self, a, b, k=1):
        if isinstance(a, str) or isinstance(b, str):
            if k == -1 and isinstance(b, str): b = {'inf': 'ninf', 'ninf': 'inf', 'nan': 'nan'}[b]
            if 'nan' in (a, b): return 'nan'
            if isinstance(a, str) and isinstance(b, str): return a if a == b else 'nan'
            return a if isinstance(a, str) else b
        f = (self.fp(a) + k * self.fp(b)) % p
        v = self.vt.get(f)
        if v is not None: return v
        t = dict(a.t)
        for m, c in b.t.items():
            x = t.get(m, 0) + k * c
            if x: t[m] = x
            else: t.pop(m, None)
        return self.collapse(t, f)

    def vmul(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            if 'nan' in (a, b): return 'nan'
            x, y = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(y, str): return 'inf' if x == y else 'ninf'
            if self.isc(y):
                c = self.cval(y)
                if c == 0: return 'nan'
                return x if c > 0 else ('ninf' if x == 'inf' else 'inf')
            return self.vbase(self.base(H(sint('infmul'), sint(x), self.fp(y)), 'inf*', F_OPQ))
        f = self.fp(a) * self.fp(b) % p
        v = self.vt.get(f)
        if v is not None: return v
        if self.isc(a): a, b = b, a
        if self.isc(b):
            c = self.cval(b)
            return self.collapse({m: nq(k * c) for m, k in a.t.items()} if c else {}, f)
        if len(a.t) * len(b.t) > 2 * MAXT:
            return self.vbase(self.base(f, '<product>', self.flags(a) | self.flags(b), fns=self.fnsof(a) | self.fnsof(b)))
        t = {}
        for m, c in a.t.items():
            for n, d in b.t.items():
                k = self.mono(m, n)
                x = t.get(k, 0) + c * d
                if x: t[k] = x
                else: t.pop(k, None)
        return self.collapse(t, f)

    def mono(self, m, n):
        """product of two monomials; x * (1/x) cancels"""
        if not m: return n
        if not n: return m
        l = list(m)
        for b in n:
            i = self.bases[b].inv
            q = None
            if i is not None:
                if len(i.t) == 1:
                    (mm, c), = i.t.items()
                    if c == 1 and len(mm) == 1: q = mm[0]
            else: q = self.invof.get(b)
            if q is not None and q in l: l.remove(q)
            else: l.append(b)
        l.sort()
        return tuple(l)

    def vdiv(self, a, b):
        if isinstance(b, str):
            if b == 'nan' or isinstance(a, str): return 'nan'
            return self.cst(0)
        if self.isc(b):
            c = self.cval(b)
            if c == 0:
                return self.vbase(self.base(H(sint('div0'), self.fpx(a)), 'x/0', F_DIV0))
            return self.vmul(a, self.cst(Fraction(1) / c))
        f = self.fp(b)
        if f == 0: return self.vbase(self.base(H(sint('div0'), self.fpx(a)), 'x/0', F_DIV0))
        if len(b.t) == 1:
            # 1/(c*x*y) = (1/c)*(1/x)*(1/y)
            (m, c), = b.t.items()
            r = self.vmul(a, self.cst(Fraction(1) / c)) if c != 1 else a
            for x in m:
                i = self.bases[x].inv
                if i is not None: r = self.vmul(r, i); continue
                ib = self.base(pow(x, p - 2, p), '1/(%s)' % self.bases[x].desc, self.bases[x].flags, fns=self.bases[x].fns)
                if ib.inv is None: ib.inv = self.vbase(self.bases[x]); self.invof[x] = ib.fp
                r = self.vmul(r, self.vbase(ib))
            return r
        inv = self.base(pow(f, p - 2, p), '1/(%s)' % self.desc(b), self.flags(b), fns=self.fnsof(b), sub=b)
        if inv.inv is None and not inv.desc.startswith('<'): inv.inv = b
        return self.vmul(a, self.vbase(inv))

    def desc(self, v, d=0):
        if isinstance(v, str): return v
        if isinstance(v, bool): return str(v)
        if isinstance(v, SeqV): return '<sequence>'
        out = []
        for m, c in list(v.t.items())[:6]:
            s = '*'.join(self.bases[b].desc for b in m)
            if len(s) > 120: s = s[:117] + '...'
            if not m: out.append('%g' % float(c))
            elif c == 1: out.append(s)
            elif c == -1: out.append('-' + s)
            else: out.append('%g*%s' % (float(c), s))
        if len(v.t) > 6: out.append('...')
        return ' + '.join(out).replace('+ -', '- ') or '0'

    # -------------------------------------------------------------- evaluation
    def ev(self, n, cx):
        """cx: Case evaluation context (ctx, memo, env, mode)"""
        r = cx.memo.get(n.id)
        if r is not None: return r
        s = n.sort
        if s == 'b': r = self.evb(n, cx)
        elif s == 'seq': r = self.evs(n, cx)
        else: r = self.evn(n, cx)
        cx.memo[n.id] = r
        return r

    def symv(self, n, cx):
        name = n.a[0]
        fp = sint('sym:' + name)
        lo = hi = None
        if name == 'PI': lo, hi = Fraction('3.141592'), Fraction('3.141593')
        if name == 'FLT_MAX': lo = Fraction(10) ** 30
        ub = self.userbounds.get(name)
        if ub is None and self.tags is not None:
            h = self.tags(name)
            if h is not None and h >= 0: ub = (Fraction(0), Fraction(h))
        if ub: lo, hi = ub
        b = self.base(fp, name, 0, lo, hi, n.sort == 'i', sym=name)
        if self.ieee and n.sort == 'f' and self.ieee(name):
            c = cx.ctx.cls.get(fp)
            if c is None: raise Split('cls', fp, name)
            if c != 'fin': return c
        o = cx.ctx.over.get(fp)
        if o is not None: return o
        return self.vbase(b)

    def ov(self, b, cx):
        o = cx.ctx.over.get(b.fp)
        return o if o is not None else self.vbase(b)

    def evn(self, n, cx):
        o = n.op
        E = self.ev
        if o == 'n': return self.cst(n.a[0])
        if o == 'sym': return self.symv(n, cx)
        if o in ('inf', 'ninf', 'nan'): return o
        if o == 'add': return self.vadd(E(n.a[0], cx), E(n.a[1], cx))
        if o == 'sub': return self.vadd(E(n.a[0], cx), E(n.a[1], cx), -1)
        if o == 'neg': return self.vmul(self.cst(-1), E(n.a[0], cx))
        if o == 'mul': return self.vmul(E(n.a[0], cx), E(n.a[1], cx))
        if o == 'div': return self.vdiv(E(n.a[0], cx), E(n.a[1], cx))
        if o == 'i2f': return E(n.a[0], cx)
        if o == 'ite': return self.evite(n, cx)
        if o == 'fn': return self.evfn(n, cx)
        if o == 'undef':
            return self.vbase(self.base(sint('undef:%s' % n.a[0]), 'uninitialised', F_UNDEF))
        if o == 'opq':
            args = [x for x in n.a[1:] if isinstance(x, Node)]
            return self.vbase(self.base(H(sint('opq'), n.id), 'unmodelled(%s)' % (n.a[0],), F_OPQ))
        if o == 'size':
            return self.evsize(E(n.a[0], cx), cx)
        if o == 'at': return self.evat(n, cx)
        if o == 'mu':
            v = cx.env.get(n)
            if v is None: raise Skip('free mu')
            return v
        if o == 'after': return self.evafter(n, cx)
        if n.sort in ('f', 'i'):
            return self.vbase(self.base(H(sint('op:' + o), n.id), o, F_OPQ))
        return self.vbase(self.base(H(sint('op:' + o), n.id), o, F_OPQ))

    def evite(self, n, cx):
        c, a, b = n.a
        try: k = self.ev(c, cx)
        except Split as s:
            # a condition that does not matter need not be resolved
            if cx.depth < 3:
                cx.depth += 1
                try:
                    try:
                        x = self.ev(a, cx); y = self.ev(b, cx)
                    except (Split, Bound, DivZero, Skip): raise s
                    if self.fpx(x) == self.fpx(y): return x
                finally: cx.depth -= 1
            raise s
        return self.ev(a if k else b, cx)

    FB = {'sqrt': (0, None), 'acos': (0, Fraction('3.1416')), 'exp': (0, None)}

    def evfn(self, n, cx):
        name = n.a[0]
        args = [self.ev(x, cx) for x in n.a[1:]]
        if any(a == 'nan' for a in args if isinstance(a, str)): return 'nan'
        if any(isinstance(a, str) for a in args):
            if name == 'sqrt' and args[0] == 'inf': return 'inf'
            if name in ('ceil', 'floor', 'round', 'trunc'): return args[0]
        elif all(isinstance(a, V) and self.isc(a) for a in args):
            q = Fraction(self.cval(args[0]))
            if name in ('ceil',): return self.cst(q.__ceil__())
            if name == 'floor': return self.cst(q.__floor__())
            if name in ('f2i', 'trunc'): return self.cst(int(q))
            if name == 'sqrt' and q >= 0:
                from math import isqrt
                if isqrt(q.numerator) ** 2 == q.numerator and isqrt(q.denominator) ** 2 == q.denominator:
                    return self.cst(Fraction(isqrt(q.numerator), isqrt(q.denominator)))
            if name == 'acos' and q == 1: return V({})
            if name in ('idiv', 'imod') and self.cval(args[1]) != 0:
                r = self.cval(args[1])
                z = abs(q) // abs(r)
                z = z if (q >= 0) == (r > 0) else -z
                return self.cst(z if name == 'idiv' else q - z * r)
        if name == 'f2i' and len(n.a) == 2 and isinstance(args[0], V):
            # conversion of a value that is already integral
            v = args[0]
            if v.t and all(self.monoint(m) and c.denominator == 1 for m, c in v.t.items()): return v
        if name in ('ceil', 'floor', 'trunc', 'round') and isinstance(args[0], V):
            v = args[0]
            if v.t and all(self.monoint(m) and c.denominator == 1 for m, c in v.t.items()): return v
        lo, hi = self.FB.get(name, (None, None))
        fl = 0
        fns = frozenset([name])
        if name in ('fmod', 'remainder'): fl = F_OPQ
        for a in args:
            fl |= self.flags(a); fns |= self.fnsof(a)
        b = self.base(H(sint('fn:' + name), *[self.fpx(a) for a in args]),
                      '%s(%s)' % (name, ', '.join(self.desc(a) for a in args)), fl, lo, hi,
                      name in ('ceil', 'floor', 'f2i', 'trunc', 'round', 'idiv', 'imod'), fns, sub=args[0] if name == 'sqrt' else None)
        return self.ov(b, cx)

    def monoint(self, m): return all(self.bases[b].int for b in m)

    # -------------------------------------------------------------- booleans
    def evb(self, n, cx):
        o = n.op
        if o == 'b': return n.a[0]
        if o == 'not': return not self.ev(n.a[0], cx)
        if o in ('and', 'or'):
            dom = o == 'or'
            try:
                if self.ev(n.a[0], cx) is dom: return dom
                return self.ev(n.a[1], cx)
            except Split as s:
                # the other operand may already decide
                try:
                    if self.ev(n.a[1], cx) is dom: return dom
                except (Split, Bound, DivZero, Skip): pass
                raise s
        if o in ('lt', 'le', 'eq'):
            a = self.ev(n.a[0], cx); b = self.ev(n.a[1], cx)
            if isinstance(a, bool) or isinstance(b, bool):
                return a == b
            return self.cmp(o, a, b, cx, n.a[0].sort == 'i' and n.a[1].sort == 'i')
        if o == 'ite':
            return self.evite(n, cx)
        if o == 'sym':
            key = sint('sym:' + n.a[0])
            return self.batom(key, n.a[0], 0, cx)
        if o == 'fn':
            name = n.a[0]
            args = [self.ev(x, cx) for x in n.a[1:]]
            if name in ('isnan', 'isinf', 'isfinite'):
                x = args[0]
                if isinstance(x, str):
                    return {'isnan': x == 'nan', 'isinf': x in ('inf', 'ninf'), 'isfinite': False}[name]
                if self.isc(x): return name == 'isfinite'
                if self.ieee and len(x.t) == 1:
                    (m, c), = x.t.items()
                    if len(m) == 1 and self.bases[m[0]].sym is not None: return name == 'isfinite'
                # over finite operands a compound value is finite, +-inf or NaN; keep one atom per class
                k = H(sint('nonfinite'), self.fpx(x))
                d = self.desc(x)
                if name == 'isfinite': return not self.batom(k, 'nonfinite(%s)' % d, self.flags(x), cx)
                if not self.batom(k, 'nonfinite(%s)' % d, self.flags(x), cx): return False
                r = self.batom(H(sint('isnan'), self.fpx(x)), 'isnan(%s)' % d, self.flags(x), cx)
                return r if name == 'isnan' else not r
            fl = 0
            for a in args: fl |= self.flags(a)
            return self.batom(H(sint('bfn:' + name), *[self.fpx(a) for a in args]), name, fl, cx)
        if o == 'opq': return self.batom(H(sint('opqb'), n.id), 'unmodelled(%s)' % (n.a[0],), F_OPQ, cx)
        if o == 'undef': return self.batom(sint('undefb'), 'uninitialised flag', F_UNDEF, cx)
        if o == 'at': return self.evat(n, cx)
        if o == 'mu':
            v = cx.env.get(n)
            if v is None: raise Skip('free mu')
            return v
        if o == 'after': return self.evafter(n, cx)
        return self.batom(H(sint('bop:' + o), n.id), o, F_OPQ, cx)

    def batom(self, key, desc, flags, cx):
        v = cx.ctx.bools.get(key)
        if v is None: raise Split('bool', key, (desc, flags))
        return v

    def canon(self, d):
        """d = c*(K - t): returns (key, K, t, sign)"""
        c0 = Fraction(d.t.get((), 0))
        ms = [m for m in d.t if m]
        m0 = min(ms)
        c = Fraction(d.t[m0])
        K = V({m: nq(d.t[m] / c) for m in ms})
        return self.fp(K), K, -c0 / c, (1 if c > 0 else -1)

    def bounds(self, K):
        lo = hi = Fraction(0)
        for m, c in K.t.items():
            if not m: bl = bh = Fraction(1)
            elif len(m) == 1: b = self.bases[m[0]]; bl, bh = b.lo, b.hi
            elif len(m) % 2 == 0 and m[0::2] == m[1::2]: bl, bh = Fraction(0), None
            else:
                bs = [self.bases[x] for x in m]
                if all(b.lo is not None and b.lo >= 0 for b in bs): bl, bh = Fraction(0), None
                else: bl = bh = None
            if c < 0: bl, bh = bh, bl
            lo = None if lo is None or bl is None else lo + c * bl
            hi = None if hi is None or bh is None else hi + c * bh
            if lo is None and hi is None: break
        return lo, hi

    def interval(self, key, K, cx):
        iv = cx.ctx.iv.get(key)
        if iv is None:
            lo, hi = self.bounds(K)
            # strict only when known
            iv = (lo, False, hi, False)
        return iv

    def cmp(self, o, a, b, cx, isint=False):
        if isinstance(a, str) or isinstance(b, str):
            if 'nan' in (a, b): return False
            if isinstance(a, str) and isinstance(b, str):
                if a == b: return o != 'lt'
                return o != 'eq' and a == 'ninf'
            if o == 'eq': return False
            if isinstance(a, str): return a == 'ninf'
            return b == 'inf'
        d = self.vadd(a, b, -1)
        if self.isc(d):
            c = self.cval(d)
            return c < 0 if o == 'lt' else c <= 0 if o == 'le' else c == 0
        if self.fp(d) == 0: return o != 'lt'
        s = self.sign(d, cx)
        return s < 0 if o == 'lt' else s <= 0 if o == 'le' else s == 0

    def sign(self, d, cx):
        f = self.fp(d)
        g, q = (f, 1) if f <= p - f else (p - f, -1)
        k = cx.ctx.soft.get(g)
        if k is not None: return k * q
        r = self.sign0(d, cx)
        cx.ctx.soft[g] = r * q
        return r

    def sign0(self, d, cx):
        # clear denominators: sign(a/b - c) = sign(a - c*b) * sign(b)
        for _ in range(4):
            inv = None
            for m in d.t:
                for b in m:
                    if self.bases[b].inv is not None: inv = b; break
                if inv: break
            if inv is None: break
            u = self.bases[inv].inv
            out = V({})
            ok = True
            for m, c in d.t.items():
                if inv in m:
                    l = list(m); l.remove(inv)
                    out = self.vadd(out, V({tuple(l): c}))
                else:
                    t = self.vmul(V({m: c}), u)
                    out = self.vadd(out, t)
                if len(out.t) > 24: ok = False; break
            if not ok or self.fp(out) == 0: break
            su = self.sgn(u, cx)
            if su == 0: raise DivZero()
            return su * self.sgn(out, cx)
        # common factors
        ms = list(d.t)
        if ms and () not in d.t:
            com = list(ms[0])
            for m in ms[1:]:
                l = list(m)
                com = [x for x in com if x in l and not l.remove(x)]
                if not com: break
            if com and (len(ms) > 1 or len(ms[0]) > 1):
                r = 1
                cnt = {}
                for x in com: cnt[x] = cnt.get(x, 0) + 1
                for x, n in cnt.items():
                    sx = self.sgn(V({(x,): Fraction(1)}), cx)
                    if sx == 0: return 0
                    if n % 2: r *= sx
                rest = {}
                for m, c in d.t.items():
                    l = list(m)
                    for x in com: l.remove(x)
                    rest[tuple(l)] = c
                return r * self.sgn(V(rest), cx)
        return self.sgn(d, cx, True)

    def sgn(self, d, cx, leaf=False):
        if self.isc(d):
            c = self.cval(d)
            return (c > 0) - (c < 0)
        if not leaf: return self.sign(d, cx)
        key, K, t, sg = self.canon(d)
        lo, ls, hi, hs = self.interval(key, K, cx)
        isint = all(self.monoint(m) and c.denominator == 1 for m, c in K.t.items())
        if isint and t.denominator != 1:
            # K < t or K > t
            fl = Fraction(t.__floor__())
            if hi is not None and hi <= fl: return -sg
            if lo is not None and lo >= fl + 1: return sg
            raise Split('sgn', key, (K, t, isint, (lo, ls, hi, hs)))
        if lo is not None and (lo > t or (lo == t and ls)): return sg
        if hi is not None and (hi < t or (hi == t and hs)): return -sg
        if lo is not None and lo == hi == t: return 0
        if not isint and len(K.t) <= 12:
            q = self.psd(V({**K.t, (): -t} if t else K.t))
            if q: return self.semidef(key, K, t, sg * q, q, cx, (lo, ls, hi, hs))
        if 1 < len(d.t) <= 6 and not isint and any(len(m) > 1 for m in d.t):
            q = self.grouped(d, cx)
            if q is not None: return q
        raise Split('sgn', key, (K, t, isint, (lo, ls, hi, hs)))

    def grouped(self, d, cx):
        """sign of x*u + v from the known signs of x, u and v"""
        for x in sorted({b for m in d.t if len(m) > 1 for b in m}):
            u, v = {}, {}
            for m, c in d.t.items():
                if x in m:
                    l = list(m); l.remove(x); u[tuple(l)] = c
                else: v[m] = c
            if not v: continue
            try:
                sx = self.sgn(V({(x,): 1}), cx)
                su = self.sgn(V(u), cx) * sx if sx else 0
                sv = self.sgn(V(v), cx)
            except (Split, Bound): continue
            if su * sv >= 0: return su or sv
        return None

    def semidef(self, key, K, t, s, q, cx, iv):
        lo, ls, hi, hs = iv
        if q > 0: iv = (t, ls if lo == t else False, hi, hs)
        else: iv = (lo, ls, t, hs if hi == t else False)
        if (q > 0 and iv[1]) or (q < 0 and iv[3]): return s
        raise Split('sgn', key, (K, t, False, iv))

    _psd = {}

    def psd(self, v):
        """+1 / -1 when the quadratic polynomial v is a sum of squares up to sign."""
        f = self.fp(v)
        r = self._psd.get(f)
        if r is not None: return r
        r = 0
        if all(len(m) <= 2 for m in v.t) and any(len(m) == 2 for m in v.t):
            bs = sorted({b for m in v.t for b in m})
            if len(bs) <= 10:
                idx = {b: i + 1 for i, b in enumerate(bs)}
                n = len(bs) + 1
                for sg in (1, -1):
                    M = [[Fraction(0)] * n for _ in range(n)]
                    for m, c in v.t.items():
                        c = Fraction(c * sg)
                        if not m: M[0][0] += c
                        elif len(m) == 1: M[0][idx[m[0]]] += c / 2; M[idx[m[0]]][0] += c / 2
                        else:
                            i, j = idx[m[0]], idx[m[1]]
                            if i == j: M[i][i] += c
                            else: M[i][j] += c / 2; M[j][i] += c / 2
                    if ldl(M): r = sg; break
        self._psd[f] = r
        return r

    # -------------------------------------------------------------- sequences
    def evs(self, n, cx):
        o = n.op
        E = self.ev
        if o == 'sempty': return SeqV(None, 0, ())
        if o == 'sseq': return SeqV(self.base(sint('seq:' + n.a[0]), n.a[0]), 0, ())
        if o == 'push':
            s = E(n.a[0], cx)
            it = self.item(n.a[1], cx)
            return SeqV(s.base, s.pops, s.items + (it,))
        if o == 'popf':
            s = E(n.a[0], cx)
            if s.base is None: return SeqV(None, 0, s.items[1:])
            if s.items:
                # the front element belongs to the base unless the base is exhausted
                z = self.bsize(s, cx)
                if not self.cmp('lt', self.cst(0), z, cx, True): return SeqV(None, 0, s.items[1:])
            return SeqV(s.base, s.pops + 1, s.items)
        if o == 'popb':
            s = E(n.a[0], cx)
            if s.items: return SeqV(s.base, s.pops, s.items[:-1])
            if s.base is None: return s
            f = H(sint('popb'), self.fpseq(s))
            return SeqV(self.base(f, 'popb', s.base.flags | F_LOOP), 0, ())
        if o == 'set':
            s = E(n.a[0], cx); i = E(n.a[1], cx)
            it = self.item(n.a[2], cx)
            if isinstance(i, V):
                off = self.vadd(i, self.bsize(s, cx), -1) if s.base is not None else i
                if self.isc(off) and 0 <= self.cval(off) < len(s.items):
                    j = int(self.cval(off))
                    return SeqV(s.base, s.pops, s.items[:j] + (it,) + s.items[j + 1:])
            f = H(sint('set'), self.fpseq(s), self.fpx(i), it[0])
            b = self.base(f, 'set', self.flags(s) | it[1] | F_OPQ)
            return SeqV(b, 0, ())
        if o == 'ite': return self.evite(n, cx)
        if o == 'after': return self.evafter(n, cx)
        if o == 'mu':
            v = cx.env.get(n)
            if v is None: raise Skip('free mu')
            return v
        if o in ('drop', 'fill'):
            args = [self.ev(x, cx) for x in n.a if isinstance(x, Node) and x.sort in ('b', 'i', 'f', 'seq')]
            return SeqV(self.base(H(sint(o), *[self.fpx(a) for a in args]), o, F_OPQ), 0, ())
        return SeqV(self.base(H(sint('seqop:' + o), n.id), o, F_OPQ), 0, ())

    def item(self, v, cx):
        ls = []
        leaves(v, (), ls)
        vals = []
        fl = 0
        fns = frozenset()
        d = {}
        for path, x in ls:
            y = self.ev(x, cx)
            f = self.fpx(y)
            fl |= self.flags(y); fns |= self.fnsof(y)
            vals.append(sint(pkey(path))); vals.append(f)
            d[pkey(path)] = y
        return (H(*vals), fl, fns, d)

    def sbase_size(self, b, cx):
        x = self.base(H(sint('size'), b.fp), 'size(%s)' % b.desc, b.flags, Fraction(0), None, True, b.fns, sub=None, sym=None)
        return self.ov(x, cx)

    def bsize(self, s, cx):
        if s.base is None: return self.cst(0)
        return self.vadd(self.sbase_size(s.base, cx), self.cst(-s.pops))

    def evsize(self, s, cx): return self.vadd(self.bsize(s, cx), self.cst(len(s.items)))

    def evat(self, n, cx):
        s = self.ev(n.a[0], cx); i = self.ev(n.a[1], cx)
        path = pkey(n.a[2])
        if not isinstance(i, V): raise Skip('index')
        if s.items:
            off = self.vadd(i, self.bsize(s, cx), -1)
            if not self.isc(off):
                # resolve the position relative to the appended items
                lim = len(s.items)
                if not self.cmp('lt', off, self.cst(0), cx, True):
                    for j in range(lim):
                        if self.cmp('eq', off, self.cst(j), cx, True): return self.itemleaf(s.items[j], path, n)
                    return self.oob(n)
            else:
                j = self.cval(off)
                if j >= 0:
                    if j < len(s.items): return self.itemleaf(s.items[int(j)], path, n)
                    return self.oob(n)
        if s.base is None:
            return self.oob(n)
        i = self.vadd(i, self.cst(s.pops))
        key = H(sint('at'), s.base.fp, self.fp(i), sint(path))
        desc = '%s[%s]%s' % (s.base.desc, self.desc(i), path)
        if n.sort == 'b': return self.batom(key, desc, s.base.flags, cx)
        b = self.base(key, desc, s.base.flags | self.flags(i), isint=n.sort == 'i', fns=s.base.fns, sym=None)
        return self.ov(b, cx)

    def oob(self, n):
        if n.sort == 'b': raise Skip('oob')
        return self.vbase(self.base(sint('oob'), 'out-of-range element', F_UNDEF))

    def itemleaf(self, it, path, n):
        d = it[3]
        if path in d: return d[path]
        raise Skip('item path ' + path)

    # -------------------------------------------------------------- loops
    def evafter(self, n, cx):
        L, e = n.a
        if cx.mode == 'hash' and not cx.env:
            try:
                so = Soft(self, cx.ctx)
                f = so.prob(so.closed(n))
            except SoftFail as x: raise Skip(str(x))
            fl = F_LOOP
            fns = frozenset()
            if n.sort == 'seq': return SeqV(self.base(f, 'loop-result', fl), 0, ())
            if n.sort == 'b': return self.batom(f, 'loop-flag@' + L.where.split(' ')[0], fl, cx)
            b = self.base(f, 'loop-result@' + L.where.split(' ')[0], fl, isint=n.sort == 'i')
            return self.ov(b, cx)
        return self.expand(L, e, cx)

    def expand(self, L, e, cx):
        envs = cx.loops.setdefault((L.id, cx.envid), [])
        k = 0
        while True:
            if k > self.K: raise Bound()
            if len(envs) <= k:
                envs.append(Case(cx.ctx, cx.mode, Env(self, L, cx, envs[k - 1] if k else None), (L.id, k, cx.envid), cx.loops))
            c = envs[k]
            if self.ev(L.done, c): return self.ev(e, c)
            k += 1


def s_base(v): return v.base is not None


_lmus = {}


def ldl(M):
    """Is the symmetric rational matrix positive semidefinite?"""
    n = len(M)
    M = [r[:] for r in M]
    for k in range(n):
        if M[k][k] < 0: return False
        if M[k][k] == 0:
            if any(M[k][j] for j in range(k, n)): return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f:
                for j in range(k, n): M[i][j] -= f * M[k][j]
    return True


class Env:
    """Lazy environment for the carried cells of a loop in one iteration."""
    __slots__ = ('D', 'L', 'parent', 'prev', 'val')

    def __init__(self, D, L, parent, prev):
        self.D = D; self.L = L; self.parent = parent; self.prev = prev; self.val = {}

    def get(self, mu):
        v = self.val.get(mu)
        if v is not None: return v
        t = _lmus.get(self.L.id)
        if t is None: t = _lmus[self.L.id] = {m: (i, nx) for m, i, nx in self.L.mus}
        t = t.get(mu)
        if t is None: return self.parent.env.get(mu) if self.parent.env else None
        v = self.D.ev(t[0], self.parent) if self.prev is None else self.D.ev(t[1], self.prev)
        self.val[mu] = v
        return v

    def __bool__(self): return True


class Case:
    __slots__ = ('ctx', 'memo', 'env', 'mode', 'loops', 'envid', 'depth', 'done')

    def __init__(self, ctx, mode, env=None, envid=None, loops=None):
        self.ctx = ctx; self.memo = {}; self.env = env if env is not None else {}
        self.mode = mode; self.envid = envid; self.loops = loops if loops is not None else {}
        self.depth = 0; self.done = None

    def mark(self, k): self.done = (self.done or frozenset()) | {k}

    def refined(self, ctx):
        """The same evaluation under a context that only narrows the old one
        (no new substitution): everything already evaluated stays valid."""
        r = Case(ctx, self.mode)
        r.memo = dict(self.memo)
        mp = {id(self): r}
        for key, lst in self.loops.items():
            out = r.loops[key] = []
            for c in lst:
                e = c.env
                ne = Env(e.D, e.L, mp[id(e.parent)], mp[id(e.prev)] if e.prev is not None else None)
                ne.val = dict(e.val)
                nc = Case(ctx, c.mode, ne, c.envid, r.loops)
                nc.memo = dict(c.memo)
                mp[id(c)] = nc
                out.append(nc)
        return r


class SoftFail(Exception):
    pass


class Over(Exception):
    pass


class A:
    """Decision diagram node: variable v (an index), value when it holds / not.
    Leaves are field elements (Python integers)."""
    __slots__ = ('v', 'hi', 'lo', 'pr')


class Soft:
    """Fingerprints with unresolved conditions kept as decision diagrams over
    atoms.  Large diagrams are collapsed to the value of their multilinear
    extension at a random point."""
    CAP = 1000
    BCAP = 6000

    def __init__(self, D, ctx):
        self.D = D; self.ctx = ctx
        self.root = Frame(None, {}, -1)
        self._ieee = {}

    # ------------------------------------------------------------ diagrams
    def mk(self, v, hi, lo):
        if hi is lo or (type(hi) is int and type(lo) is int and hi == lo): return hi
        t = self.D.addtab
        k = (v, hi if type(hi) is int else id(hi), lo if type(lo) is int else id(lo), type(hi) is int, type(lo) is int)
        r = t.get(k)
        if r is None:
            r = A(); r.v = v; r.hi = hi; r.lo = lo
            r.pr = (self.D.addvp[v] * self.prob(hi) + (1 - self.D.addvp[v]) * self.prob(lo)) % p
            t[k] = r
        return r

    def prob(self, x): return x if type(x) is int else x.pr

    def var(self, key):
        D = self.D
        i = D.addvars.get(key)
        if i is None:
            i = D.addvars[key] = len(D.addvp)
            D.addvp.append(H(sint('var'), key))
        return self.mk(i, 1, 0)

    def lift(self, f, *args, cap=None, bdd=False):
        """f applied leaf by leaf; bdd: f yields diagrams."""
        for a in args:
            if type(a) is not int: break
        else: return f(*args)
        # the limit depends on the operands only, so that equal operands always
        # give equal results
        cap = cap or self.CAP
        memo = {}

        def go(xs):
            k = tuple(x if type(x) is int else (id(x),) for x in xs)
            r = memo.get(k)
            if r is not None: return r
            v = None
            for x in xs:
                if type(x) is not int and (v is None or x.v < v): v = x.v
            if v is None: r = f(*xs)
            else:
                hi = go(tuple(x.hi if type(x) is not int and x.v == v else x for x in xs))
                lo = go(tuple(x.lo if type(x) is not int and x.v == v else x for x in xs))
                r = self.ite_(self.mk(v, 1, 0), hi, lo, {}) if bdd else self.mk(v, hi, lo)
            memo[k] = r
            if len(memo) > cap: raise Over()
            return r
        try: return go(args)
        except Over: return f(*[self.prob(x) for x in args])

    def ite_(self, c, a, b, memo, cap=1 << 60):
        if type(c) is int:
            if c == 1: return a
            if c == 0: return b
            a, b = self.prob(a), self.prob(b)
            return (c * a + (1 - c) * b) % p
        if a is b or (type(a) is int and type(b) is int and a == b): return a
        k = (id(c), a if type(a) is int else (id(a),), b if type(b) is int else (id(b),))
        r = memo.get(k)
        if r is not None: return r
        v = c.v
        if type(a) is not int and a.v < v: v = a.v
        if type(b) is not int and b.v < v: v = b.v
        g = lambda x, s: x if type(x) is int or x.v != v else (x.hi if s else x.lo)
        hi = self.ite_(g(c, 1), g(a, 1), g(b, 1), memo, cap)
        lo = self.ite_(g(c, 0), g(a, 0), g(b, 0), memo, cap)
        r = memo[k] = self.mk(v, hi, lo)
        if len(memo) > cap: raise Over()
        return r

    def ite(self, c, a, b, cap=None):
        if type(c) is int: return self.ite_(c, a, b, None)
        try: return self.ite_(c, a, b, {}, cap or self.CAP)
        except Over:
            c, a, b = c.pr, self.prob(a), self.prob(b)
            return (c * a + (1 - c) * b) % p

    # ---------------------------------------------------------- evaluation
    def closed(self, n):
        return self.ev(n, self.root)

    def ev(self, n, fr):
        r = fr.memo.get(n.id)
        if r is not None: return r
        # evaluate in the outermost frame that the node depends on
        g = fr
        if fr.level >= 0:
            lv = -1
            for m in (n._fv if n._fv is not None else free_mus(n)):
                k = fr.levels.get(m, -1)
                if k > lv: lv = k
            while g.level > lv: g = g.parent
            r = g.memo.get(n.id)
        if r is None:
            r = self.ev0(n, g)
            g.memo[n.id] = r
        fr.memo[n.id] = r
        return r

    def special(self, n):
        """Does the value depend on an input that may be NaN or infinite?"""
        if not self.D.ieee: return False
        r = self._ieee.get(n.id)
        if r is None:
            if n.op == 'sym': r = n.sort == 'f' and bool(self.D.ieee(n.a[0]))
            elif n.op == 'at': r = bool(self.D.ieee(pkey(n.a[2]))) if n.sort == 'f' else False
            else: r = n.sort in ('f', 'i') and any(isinstance(y, Node) and y.sort in ('f', 'i') and self.special(y) for y in n.a)
            self._ieee[n.id] = r
        return r

    def flag(self, f):
        k = self.ctx.bools.get(f)
        return self.var(f) if k is None else int(k)

    def lt0(self, d):
        if d == 0: return 0
        f, s = (d, 1) if d <= p - d else (p - d, -1)
        if f < 1 << 20: return int(s < 0)      # a small integer
        k = self.ctx.soft.get(f)
        if k is not None: return int(k * s < 0)
        if s > 0: return self.var(H(sint('neg'), f))
        return self.ite_(self.var(H(sint('neg'), f)), 0, self.ite_(self.var(H(sint('zero'), f)), 0, 1, {}), {})

    def eq0(self, d):
        if d == 0: return 1
        f = d if d <= p - d else p - d
        if f < 1 << 20: return 0
        k = self.ctx.soft.get(f)
        if k is not None: return int(k == 0)
        return self.ite_(self.var(H(sint('neg'), f)), 0, self.var(H(sint('zero'), f)), {})

    def tag(self, x, c, hi):
        """x == c for a tag, which has one value at a time (0..hi if hi >= 0)."""
        if hi >= 0 and c > hi: return 0
        r = 1
        for k in range(c, -1, -1):
            v = 1 if k == hi else self.tag1(x, k)
            r = self.ite_(v, 1, 0, {}) if k == c else self.ite_(v, 0, r, {})
        return r

    def tag1(self, x, k):
        d = (x - k) % p
        f = d if d <= p - d else p - d
        s = self.ctx.soft.get(f)
        return int(s == 0) if s is not None else self.var(H(sint('tag'), f))

    def cmp(self, o, a, b, special):
        if special:
            # no trichotomy, no arithmetic
            lt_ = lambda x, y: 0 if x == y else self.flag(H(sint('ieee-lt'), x, y))
            if o == 'lt': return self.lift(lt_, a, b, bdd=True, cap=self.BCAP)

            def eq_(x, y):
                u, v = (x, y) if x < y else (y, x)
                e = self.flag(H(sint('ieee-eq'), u, v))
                for z in (lt_(u, v), lt_(v, u)): e = self.ite_(z, 0, e, {})
                return e
            if o == 'eq': return self.lift(eq_, a, b, bdd=True, cap=self.BCAP)
            return self.lift(lambda x, y: self.ite_(lt_(x, y), 1, eq_(x, y), {}), a, b, bdd=True, cap=self.BCAP)
        if o == 'lt': f = lambda x, y: self.lt0((x - y) % p)
        elif o == 'eq': f = lambda x, y: self.eq0((x - y) % p)
        else: f = lambda x, y: self.ite_(self.lt0((x - y) % p), 1, self.eq0((x - y) % p), {})
        return self.lift(f, a, b, bdd=True, cap=self.BCAP)

    def ev0(self, n, fr):
        o = n.op
        E = lambda x: self.ev(x, fr)
        D = self.D
        if o == 'n': return ffrac(n.a[0])
        if o == 'b': return int(n.a[0])
        if o == 'sym':
            f = sint('sym:' + n.a[0])
            if n.sort == 'b': return self.flag(f)
            c = self.ctx.cls.get(f)
            if c is not None and c != 'fin': return sint('#' + c)
            ov = self.ctx.over.get(f)
            if ov is not None: return D.fpx(ov)
            if D.tags is not None and n.sort == 'i':
                hi = D.tags(n.a[0])
                if hi is not None and 0 <= hi <= 8:
                    # a tag is one of its values
                    r = ffrac(Fraction(hi))
                    for k in range(hi - 1, -1, -1): r = self.ite_(self.tag1(f, k), ffrac(Fraction(k)), r, {})
                    return r
            return f
        if o in ('inf', 'ninf', 'nan'): return sint('#' + o)
        L = self.lift
        if o in ('add', 'sub', 'neg', 'mul', 'div') and self.special(n):
            return L(lambda *v: H(sint('ieee:' + o), *v), *[E(x) for x in n.a])
        if o == 'add': return L(lambda x, y: (x + y) % p, E(n.a[0]), E(n.a[1]))
        if o == 'sub': return L(lambda x, y: (x - y) % p, E(n.a[0]), E(n.a[1]))
        if o == 'neg': return L(lambda x: -x % p, E(n.a[0]))
        if o == 'mul': return L(lambda x, y: x * y % p, E(n.a[0]), E(n.a[1]))
        if o == 'div': return L(lambda x, y: x * pow(y, p - 2, p) % p, E(n.a[0]), E(n.a[1]))
        if o == 'i2f': return E(n.a[0])
        if o == 'not': return L(lambda x: (1 - x) % p, E(n.a[0]), cap=self.BCAP)
        if o == 'and':
            a = E(n.a[0])
            if type(a) is int and a == 0: return 0
            return L(lambda x, y: x * y % p, a, E(n.a[1]), cap=self.BCAP)
        if o == 'or':
            a = E(n.a[0])
            if type(a) is int and a == 1: return 1
            return L(lambda x, y: (x + y - x * y) % p, a, E(n.a[1]), cap=self.BCAP)
        if o == 'ite':
            c = E(n.a[0])
            if type(c) is int:
                if c == 1: return E(n.a[1])
                if c == 0: return E(n.a[2])
            return self.ite(c, E(n.a[1]), E(n.a[2]), self.BCAP if n.sort == 'b' else None)
        if o == 'eq' and D.tags is not None and n.a[0].op == 'sym' and isnum(n.a[1]):
            hi = D.tags(n.a[0].a[0])
            c = n.a[1].a[0]
            x = sint('sym:' + n.a[0].a[0])
            if hi is not None and 0 <= c <= 8 and x not in self.ctx.over: return self.tag(x, int(c), hi)
        if o in ('lt', 'le', 'eq'):
            return self.cmp(o, E(n.a[0]), E(n.a[1]), self.special(n.a[0]) or self.special(n.a[1]))
        if o == 'fn':
            args = [E(x) for x in n.a[1:]]
            nm = n.a[0]
            if n.sort == 'b':
                if nm in ('isnan', 'isinf', 'isfinite'):
                    def cl(*v):
                        x = self.flag(H(sint('nonfinite'), *v))
                        if nm == 'isfinite': return self.ite_(x, 0, 1, {})
                        y = self.flag(H(sint('isnan'), *v))
                        return self.ite_(x, y if nm == 'isnan' else self.ite_(y, 0, 1, {}), 0, {})
                    return L(cl, *args, bdd=True)
                return L(lambda *v: self.flag(H(sint('bfn:' + nm), *v)), *args, bdd=True)

            def fn(*v):
                f = H(sint('fn:' + nm), *v)
                ov = self.ctx.over.get(f)
                return f if ov is None else D.fpx(ov)
            return L(fn, *args)
        if o == 'undef': return sint('undef:%s' % n.a[0])
        if o == 'opq':
            return H(sint('opq'), n.id)
        if o == 'size':
            # size of pushes/pops is already peeled by the constructors
            def size(s):
                k = 0
                while s in D.srep: s = D.srep[s][0]; k += 1
                if s == sint('#empty'): return k
                if k: return (size(s) + k) % p
                f = H(sint('size'), s)
                ov = self.ctx.over.get(f)
                return f if ov is None else D.fpx(ov)
            return L(size, E(n.a[0]))
        if o == 'at':
            k = sint(pkey(n.a[2]))

            def at_(s, i):
                x, c = s, 0
                while x in D.srep: x = D.srep[x][0]; c += 1
                if c and x == sint('#empty') and i < c:
                    x = s
                    for _ in range(c - 1 - i): x = D.srep[x][0]
                    v = D.srep[x][2].get(k)
                    if v is not None: return v
                return H(sint('at'), s, i, k)
            return L(at_, E(n.a[0]), E(n.a[1]))
        if o == 'sempty': return sint('#empty')
        if o == 'sseq': return sint('seq:' + n.a[0])
        if o == 'push':
            ls = []
            leaves(n.a[1], (), ls)
            keys = [sint(pkey(path)) for path, x in ls]

            def push(s, *vs):
                w = []
                for k, x in zip(keys, vs): w += [k, x]
                h = H(*w)
                r = H(sint('push'), s, h)
                D.srep[r] = (s, h, dict(zip(keys, vs)))
                return r
            return L(push, E(n.a[0]), *[E(x) for _, x in ls])
        if o == 'popf':
            def pop(s):
                r = D.srep.get(s)
                if r is not None:
                    if r[0] == sint('#empty'): return r[0]
                    if r[0] in D.srep:
                        b = pop(r[0])
                        q = H(sint('push'), b, r[1])
                        D.srep[q] = (b, r[1], r[2])
                        return q
                return H(sint('popf'), s)
            return L(pop, E(n.a[0]))
        if o == 'popb': return L(lambda s: D.srep[s][0] if s in D.srep else H(sint('popb'), s), E(n.a[0]))
        if o == 'mu':
            g = fr
            while g is not None:
                v = g.col.get(n)
                if v is not None: return v
                g = g.parent
            raise SoftFail('free mu')
        if o == 'after':
            return self.loop(n, fr)
        args = []
        for x in n.a:
            if isinstance(x, Node):
                if x.sort in ('b', 'i', 'f', 'seq'): args.append(self.prob(E(x)))
                else:
                    ls = []
                    leaves(x, (), ls)
                    for path, y in ls: args += [sint(pkey(path)), self.prob(E(y))]
            else: args.append(sint(str(x)))
        return H(sint('op:' + o), *args)

    def loop(self, n, fr):
        L, e = n.a
        # carried cells that matter
        byname = {m: (i, nx) for m, i, nx in L.mus}
        need = set()
        work = [e, L.done]
        while work:
            x = work.pop()
            for m in free_mus(x):
                if m in byname and m not in need:
                    need.add(m); work.append(byname[m][1])
        need = tuple(m for m, _, _ in L.mus if m in need)
        f2 = fr.loops.get((L.id, need))
        P = self.prob
        if f2 is None:
            col = {m: H(sint('mu0'), P(self.ev(byname[m][0], fr))) for m in need}
            k = len(set(col.values()))
            while True:
                f2 = Frame(fr, col, fr.level + 1)
                dn = P(self.ev(L.done, f2))
                col = {m: H(sint('mu'), col[m], P(self.ev(byname[m][1], f2)), dn) for m in need}
                # the partition is stable: equal colours mean interchangeable cells
                k2 = len(set(col.values()))
                if k2 == k: break
                k = k2
            f2 = Frame(fr, col, fr.level + 1)
            f2.dn = P(self.ev(L.done, f2))
            fr.loops[(L.id, need)] = f2
        return H(sint('after'), f2.dn, P(self.ev(e, f2)))


class Frame:
    __slots__ = ('parent', 'col', 'level', 'levels', 'memo', 'loops', 'dn')

    def __init__(self, parent, col, level):
        self.parent = parent; self.col = col; self.level = level; self.memo = {}; self.loops = {}; self.dn = None
        if parent is None: self.levels = {}
        else:
            self.levels = dict(parent.levels)
            for m in col: self.levels[m] = level


def pkey(path):
    out = []
    for x in path:
        if isinstance(x, str): out.append('.' + x)
        elif x[0] == 'i' and isinstance(x[1], Node) and isnum(x[1]): out.append('[%d]' % int(x[1].a[0]))
        elif x[0] == 'i' and isinstance(x[1], Node): out.append('[#%d]' % x[1].id)
        else: out.append('.' + ':'.join(str(y) for y in x))
    return ''.join(out)


def leaves(v, path, out):
    """Scalar and sequence leaves of an aggregate value, with their paths."""
    o = v.op
    if o == 'rec':
        for f, x in zip(v.a[1], v.a[2:]): leaves(x, path + (f,), out)
    elif o == 'arr':
        for i, x in enumerate(v.a): leaves(x, path + (('i', num(i, 'i')),), out)
    elif o == 'opt':
        leaves(v.a[0], path + (('oh',),), out)
        leaves(v.a[1], path + (('o',),), out)
    elif o == 'var':
        leaves(v.a[0], path + (('vt',),), out)
        for i, x in enumerate(v.a[1:]): leaves(x, path + (('v', i),), out)
    elif o == 'uptr':
        leaves(v.a[1], path + (('ut',),), out)
        for c, x in zip(v.a[0], v.a[2:]): leaves(x, path + (('u', c),), out)
    elif o == 'ptr': leaves(v.a[0], path + (('pn',),), out)
    elif v.sort in ('b', 'i', 'f', 'seq'): out.append((path, v))
    elif o == 'undef': out.append((path, v))
    elif o in ('ite', 'opq') and v.sort not in ('unit', 'str'): out.append((path, v))


# ------------------------------------------------------------------ driver
def children_ctx(D, ctx, s):
    out = []
    if s.kind == 'cls':
        for c in ('fin', 'nan', 'inf', 'ninf'):
            x = ctx.copy(); x.cls[s.key] = c
            x.log.append('%s is %s' % (s.info, {'fin': 'finite', 'nan': 'NaN', 'inf': '+inf', 'ninf': '-inf'}[c]))
            out.append(x)
        return out
    if s.kind == 'bool':
        for v in (True, False):
            x = ctx.copy(); x.bools[s.key] = v
            x.log.append(('' if v else 'not ') + s.info[0])
            out.append(x)
        return out
    K, t, isint, (lo, ls, hi, hs) = s.info
    kd = D.desc(K)
    frac = isint and t.denominator != 1
    one = Fraction(1) if isint else Fraction(0)

    def mkc(rel):
        x = ctx.copy()
        l, l2, h, h2 = lo, ls, hi, hs
        if rel == '<':
            if frac: h, h2 = Fraction(t.__floor__()), False
            elif isint: h, h2 = t - 1, False
            else: h, h2 = t, True
        elif rel == '>':
            if frac: l, l2 = Fraction(t.__floor__()) + 1, False
            elif isint: l, l2 = t + 1, False
            else: l, l2 = t, True
        else: l, l2, h, h2 = t, False, t, False
        if l is not None and h is not None and (l > h or (l == h and (l2 or h2))): return None
        x.iv[s.key] = (l, l2, h, h2)
        x.cons.append((K, t, rel, isint))
        x.log.append('%s %s %g' % (kd, '==' if rel == '=' else rel, float(t)))
        d = D.vadd(K, D.cst(-t))
        f = D.fp(d)
        sg = {'<': -1, '=': 0, '>': 1}[rel]
        if f <= p - f: x.soft[f] = sg
        else: x.soft[p - f] = -sg
        if rel == '=' or (isint and l is not None and l == h):
            if rel != '=':
                K2, t2 = K, l
            else: K2, t2 = K, t
            if not equate(D, x, K2, t2): return None
        return x
    for rel in ('<', '=', '>'):
        if rel == '=' and frac: continue
        c = mkc(rel)
        if c is not None: out.append(c)
    return out


def equate(D, x, K, t):
    """Record K == t as a substitution when K is linear in some base."""
    x.nsub += 1
    # sums of squares and roots that vanish
    if t == 0:
        if len(K.t) == 1:
            (m, c), = K.t.items()
            if len(m) == 1 and D.bases[m[0]].sub is not None and D.bases[m[0]].desc.startswith('sqrt('):
                u = D.bases[m[0]].sub
                x.over[m[0]] = V({})
                if isinstance(u, V) and not D.isc(u):
                    k, KK, tt, sg = D.canon(u)
                    if tt == 0: return equate(D, x, KK, tt)
                return True
        if all(len(m) == 2 and m[0] == m[1] and c > 0 for m, c in K.t.items()):
            for m in K.t:
                if m[0] not in x.over: x.over[m[0]] = V({})
            return True
    cand = []
    for m, c in K.t.items():
        if len(m) == 1 and m[0] not in x.over:
            # must not occur in another monomial
            if any(m[0] in n for n in K.t if n != m): continue
            b = D.bases[m[0]]
            cand.append((0 if b.sym and b.sym != 'PI' else (2 if b.sym == 'PI' else 1), b.desc, m[0], c))
    if not cand: return True
    cand.sort()
    _, _, bf, c = cand[0]
    if cand[0][0] == 2: return True
    c = Fraction(c)
    rest = V({m: nq(-k / c) for m, k in K.t.items() if m != (bf,)})
    rest = D.vadd(rest, D.cst(t / c))
    # resolve inside existing substitutions
    def sub(v):
        if isinstance(v, V):
            r = V({})
            for m, k in v.t.items():
                term = D.cst(k)
                for b in m: term = D.vmul(term, rest if b == bf else V({(b,): Fraction(1)}))
                r = D.vadd(r, term)
            return r
        return v
    for k in list(x.over): x.over[k] = sub(x.over[k])
    x.over[bf] = rest
    return True


def feasible(D, ctx):
    """Emptiness test of the linear constraints of a case (Fourier-Motzkin)."""
    cons = []   # (coeffs dict, const, strict): sum <= const  or < const
    vars_ = set()

    def add_(K, t, rel, isint):
        e = D.cst(0) if False else None
        co = {m: Fraction(c) for m, c in K.t.items() if m}
        vars_.update(co)
        if rel in ('<', '='): cons.append((dict(co), t - (1 if isint and rel == '<' and t.denominator == 1 else 0), rel == '<' and not (isint and t.denominator == 1)))
        if rel in ('>', '='): cons.append(({m: -c for m, c in co.items()}, -t - (1 if isint and rel == '>' and t.denominator == 1 else 0), rel == '>' and not (isint and t.denominator == 1)))
    for K, t, rel, isint in ctx.cons: add_(K, t, rel, isint)
    for m in list(vars_):
        lo, hi = D.bounds(V({m: Fraction(1)}))
        if lo is not None: cons.append(({m: Fraction(-1)}, -lo, False))
        if hi is not None: cons.append(({m: Fraction(1)}, hi, False))
    # substitutions made by equalities are already among cons
    for _ in range(200):
        vs = set()
        for c, _, _ in cons: vs.update(c)
        for c, k, s in cons:
            if not c and (k < 0 or (k == 0 and s)): return False
        cons = [x for x in cons if x[0]]
        if not vs: return True
        best = None
        for v in vs:
            a = sum(1 for c, _, _ in cons if c.get(v, 0) > 0); b = sum(1 for c, _, _ in cons if c.get(v, 0) < 0)
            if best is None or a * b - a - b < best[0]: best = (a * b - a - b, v)
        v = best[1]
        pos = [x for x in cons if x[0].get(v, 0) > 0]; neg_ = [x for x in cons if x[0].get(v, 0) < 0]
        rest = [x for x in cons if x[0].get(v, 0) == 0]
        if len(rest) + len(pos) * len(neg_) > 1500: return None
        for a, ka, sa in pos:
            for b, kb, sb in neg_:
                x, y = a[v], -b[v]
                co = {}
                for m, c in a.items(): co[m] = co.get(m, 0) + c / x
                for m, c in b.items(): co[m] = co.get(m, 0) + c / y
                co = {m: c for m, c in co.items() if c}
                rest.append((co, ka / x + kb / y, sa or sb))
        cons = rest
    return None


ROUND = {'ceil', 'floor', 'round', 'trunc', 'f2i', 'rint', 'nearbyint'}


def check_equal(D, ref, imp, pre=TRUE, ctx0=None):
    return check_many(D, [('v', ref, imp, TRUE)], pre, ctx0)['v']


def check_many(D, leaves_, pre=TRUE, ctx0=None):
    """leaves_: (key, reference, implementation, guard).  For each key: is the
    implementation equal to the reference wherever pre and guard hold and the
    reference is defined?  -> ('eq', how) | ('diff', info) | ('unknown', why)"""
    out = {}
    todo = []
    s = Soft(D, ctx0 or Ctx())
    for k, ref, imp, g in leaves_:
        D.pairs += 1
        if ref is imp: out[k] = ('eq', 'identical'); continue
        try:
            if s.closed(ref) == s.closed(imp): out[k] = ('eq', 'fingerprint'); continue
            c = and_(pre, g)
            if c is not TRUE:
                # where it does not matter, put the expected value
                y = ite(c, imp, ref)
                if y is ref or s.closed(y) == s.closed(ref): out[k] = ('eq', 'fingerprint'); continue
        except SoftFail: pass
        todo.append((k, ref, imp, g))
    # one descent for leaves with the same kind of difference, then the rest
    if todo:
        r = descend(D, todo, pre, ctx0 or Ctx(), 'hash')
        again = [l for l in todo if r[l[0]][0] == 'maybe']
        if again:
            D.stats['expanded'] += len(again)
            K, best = D.K, {}
            t0 = time.time()
            for k in range(1, K + 1):
                D.K = k
                q = descend(D, again, pre, ctx0 or Ctx(), 'expand', D.tlimit - (time.time() - t0))
                for key, v in q.items():
                    if v[0] == 'unknown' and v[1].startswith('budget') and key in best and best[key][0] == 'eq': continue
                    best[key] = v
                if any(v[0] == 'diff' for v in q.values()) or time.time() - t0 > D.tlimit: break
                if all(v[0] == 'eq' and 'iterations' not in v[1] for v in q.values()): break
            D.K = K
            r.update(best)
        out.update(r)
    return out


def descend(D, todo, pre, ctx, mode, tlimit=None):
    t0 = time.time()
    rng = random.Random(SEED)
    leafdone = False
    tlimit = D.tlimit if tlimit is None else tlimit
    stack = [Case(ctx, mode)]
    n = 0
    res = {}
    unknown = {}
    bounded = 0
    keys = [l[0] for l in todo]

    def finish():
        for k in keys:
            if k in res: continue
            if k in unknown: res[k] = ('unknown', unknown[k])
            elif bounded: res[k] = ('eq', 'first %d iterations' % D.K)
            else: res[k] = ('eq', 'case analysis')
        return res
    while stack and len(res) < len(keys):
        if n > D.budget or time.time() - t0 > tlimit:
            for k in keys:
                if k not in res: unknown.setdefault(k, 'budget (%d cases)' % n)
            return finish()
        n += 1
        D.cases += 1
        if leafdone and len(stack) > 1:
            # a finished case: continue somewhere else
            i = rng.randrange(len(stack))
            stack[i], stack[-1] = stack[-1], stack[i]
        leafdone = True
        cx = stack.pop()
        x = cx.ctx
        split = None
        try:
            if pre is not TRUE and not D.ev(pre, cx): continue
        except Split as s: split = s
        except Bound: bounded += 1; continue
        except DivZero: continue
        except Skip as e:
            for k in keys: unknown.setdefault(k, str(e))
            continue
        if split is None:
            for k, ref, imp, g in todo:
                if k in res or (cx.done and k in cx.done): continue
                try:
                    if g is not TRUE and not D.ev(g, cx): cx.mark(k); continue
                    try: a = D.ev(ref, cx)
                    except DivZero: cx.mark(k); continue
                    b = D.ev(imp, cx)
                except DivZero:
                    if D.flags(a) or feasible(D, x) is not True: cx.mark(k); continue
                    if any('loop-' in l for l in x.log): res[k] = ('maybe',); continue
                    res[k] = ('diff', {'case': list(x.log), 'reference': D.descv(a), 'actual': 'division by zero', 'mode': mode}); continue
                except Split as s: split = s; break
                except Bound: bounded += 1; cx.mark(k); continue
                except Skip as e: unknown.setdefault(k, str(e)); cx.mark(k); continue
                except RecursionError: unknown.setdefault(k, 'depth'); cx.mark(k); continue
                v = judge(D, a, b, x, mode)
                if v is None: cx.mark(k)
                elif v[0] == 'unknown': unknown.setdefault(k, v[1]); cx.mark(k)
                else: res[k] = v
        if split is not None:
            leafdone = False
            for y in children_ctx(D, x, split):
                c = cx.refined(y) if y.nsub == x.nsub else Case(y, mode)
                c.done = cx.done
                stack.append(c)
    return finish()


def judge(D, a, b, x, mode):
    """None: agree (or don't care) in this case."""
    if D.fpx(a) == D.fpx(b): return None
    if isinstance(a, SeqV) and isinstance(b, SeqV) and len(a.items) == len(b.items) and a.base is b.base and a.pops == b.pops:
        # compare item by item, so that don't-care leaves do not count
        bad = [(i, k) for i, (p1, p2) in enumerate(zip(a.items, b.items)) for k in p1[3]
               if k not in p2[3] or (D.fpx(p1[3][k]) != D.fpx(p2[3][k]) and not D.flags(p1[3][k]) & (F_UNDEF | F_DIV0))]
        if not bad: return None
    fa, fb = D.flags(a), D.flags(b)
    if fa & (F_UNDEF | F_DIV0): return None            # the reference leaves it open
    if (fa | fb) & F_OPQ: return None if feasible(D, x) is False else ('unknown', 'depends on an unmodelled construct')
    if any('unmodelled(' in l for l in x.log): return ('unknown', 'branch on an unmodelled construct')
    if mode == 'hash' and ((fa | fb) & F_LOOP or any('loop-' in l for l in x.log)): return ('maybe',)
    fx = feasible(D, x)
    if fx is False: return None
    if fx is None: return ('unknown', 'feasibility')
    na, nb = D.fnsof(a), D.fnsof(b)
    if (nb - na - ROUND) and (na - nb - ROUND): return ('unknown', 'different transcendental functions')
    return ('diff', {'case': list(x.log), 'reference': D.descv(a), 'actual': D.descv(b), 'mode': mode})


def _descv(self, v):
    if isinstance(v, SeqV):
        out = []
        if v.base is not None: out.append('<%s minus first %d>' % (v.base.desc, v.pops) if v.pops else '<%s>' % v.base.desc)
        for it in v.items: out.append('{' + ', '.join('%s=%s' % (k, _descv(self, y)) for k, y in list(it[3].items())[:12]) + '}')
        return ' ++ '.join(out) or '<empty>'
    return self.desc(v)


Decider.descv = _descv
