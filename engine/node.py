"""Hash-consed value graph.

Scalar nodes denote reals, integers and booleans; aggregates are flattened into
their scalar leaves.  Joins become `ite` nodes, loops become `after(L, e)`."""
from fractions import Fraction
import math


class Node:
    __slots__ = ('op', 'a', 'id', 'sort', '_fv', '_deep')

    def __repr__(self): return show(self)


_tab = {}
_count = [0]


def mk(op, *a, sort='f'):
    key = (op, a, sort)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op; n.a = a; n.sort = sort
        n.id = _count[0]; _count[0] += 1
        n._fv = None; n._deep = None
        _tab[key] = n
    return n


TRUE = mk('b', True, sort='b')
FALSE = mk('b', False, sort='b')
UNIT = mk('unit', sort='unit')
STR = mk('str', sort='str')


def B(x): return TRUE if x else FALSE


def num(x, sort='f'):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, float):
        if math.isnan(x): return mk('nan')
        if math.isinf(x): return mk('inf') if x > 0 else mk('ninf')
    return mk('n', Fraction(x), sort=sort)


ZERO = num(0)
ONE = num(1)


def isnum(n): return n.op == 'n'


def sym(name, sort): return mk('sym', name, sort=sort)


SCAL = ('b', 'i', 'f')


def is_scalar(n): return n.sort in SCAL


# ---------------------------------------------------------------- arithmetic
def rs(a, b): return 'f' if 'f' in (a.sort, b.sort) else 'i'


def add(a, b):
    s = rs(a, b)
    if isnum(a) and isnum(b): return num(a.a[0] + b.a[0], s)
    if isnum(a) and a.a[0] == 0 and b.sort == s: return b
    if isnum(b) and b.a[0] == 0 and a.sort == s: return a
    if isnum(a): a, b = b, a
    if isnum(b) and a.op == 'add' and isnum(a.a[1]): return add(a.a[0], num(a.a[1].a[0] + b.a[0], s))
    if isnum(b) and a.op == 'ite' and a.sort == 'i' and (isnum(a.a[1]) or isnum(a.a[2])):
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    return mk('add', a, b, sort=s)


def neg(a):
    if isnum(a): return num(-a.a[0], a.sort)
    if a.op == 'neg': return a.a[0]
    if a.op == 'inf': return mk('ninf')
    if a.op == 'ninf': return mk('inf')
    return mk('neg', a, sort=a.sort)


def sub(a, b):
    s = rs(a, b)
    if a is b and a.op not in ('inf', 'ninf', 'nan'): return num(0, s)
    if isnum(a) and isnum(b): return num(a.a[0] - b.a[0], s)
    if isnum(b): return add(a, num(-b.a[0], b.sort))
    return mk('sub', a, b, sort=s)


def mul(a, b):
    s = rs(a, b)
    if isnum(a) and isnum(b): return num(a.a[0] * b.a[0], s)
    if isnum(b): a, b = b, a
    if isnum(a):
        if a.a[0] == 1 and b.sort == s: return b
        if a.a[0] == 0 and s == 'i': return num(0, s)
        if a.a[0] == -1: return neg(b)
    if a is b and a.op == 'fn' and a.a[0] == 'sqrt': return a.a[1]
    return mk('mul', a, b, sort=s)


def div(a, b):
    s = rs(a, b)
    if isnum(a) and isnum(b) and b.a[0] != 0: return num(a.a[0] / b.a[0], s)
    if isnum(b) and b.a[0] == 1 and a.sort == s: return a
    return mk('div', a, b, sort=s)


def fn(name, *args, sort='f'): return mk('fn', name, *args, sort=sort)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    return mk('not', a, sort='b')


def and_(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    r = _absorb('and', 'or', a, b)
    if r is None: r = _absorb('and', 'or', b, a, True)
    if r is not None: return r
    return mk('and', a, b, sort='b')


def flat(o, x, out, lim=24):
    if x.op == o and len(out) < lim:
        flat(o, x.a[0], out, lim); flat(o, x.a[1], out, lim)
    else: out.append(x)
    return out


def _absorb(o, d, a, b, swap=False):
    """a & (… | !a | x) = a & (… | x);  a & (a | x) = a; dually for |."""
    S = set(flat(o, a, []))
    unit = TRUE if o == 'and' else FALSE       # neutral element of o
    zero = FALSE if o == 'and' else TRUE
    if not_(b) in S: return zero
    if b in S: return a
    if b.op != d: 
        if b.op == 'not' and b.a[0].op == o:
            # a & !(a & x) = a & !x ;  a | !(a | x) = a | !x
            m = flat(o, b.a[0], [])
            keep = [x for x in m if x not in S]
            if len(keep) == len(m): return None
            if not keep: return zero
            r = keep[0]
            for x in keep[1:]: r = and_(r, x) if o == 'and' else or_(r, x)
            r = not_(r)
            return (and_ if o == 'and' else or_)(*((r, a) if swap else (a, r)))
        return None
    m = flat(d, b, [])
    keep = []
    for x in m:
        if x in S: return a
        if not_(x) in S: continue
        keep.append(x)
    if len(keep) == len(m): return None
    if not keep: return zero
    r = keep[0]
    for x in keep[1:]: r = or_(r, x) if o == 'and' else and_(r, x)
    return (and_ if o == 'and' else or_)(*((r, a) if swap else (a, r)))


def or_(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    r = _absorb('or', 'and', a, b)
    if r is None: r = _absorb('or', 'and', b, a, True)
    if r is not None: return r
    return mk('or', a, b, sort='b')


def _infcmp(a):
    return {'inf': math.inf, 'ninf': -math.inf}.get(a.op)


def lt(a, b):
    if isnum(a) and isnum(b): return B(a.a[0] < b.a[0])
    if a is b and a.sort == 'i': return FALSE
    if 'nan' in (a.op, b.op): return FALSE
    if a.op in ('inf',) or b.op in ('ninf',):
        if a.op == 'inf': return FALSE
        return FALSE
    if (a.op == 'ninf' and isnum(b)) or (isnum(a) and b.op == 'inf'): return TRUE
    return mk('lt', a, b, sort='b')


def le(a, b):
    if isnum(a) and isnum(b): return B(a.a[0] <= b.a[0])
    if a.sort == 'i' and b.sort == 'i': return not_(lt(b, a))
    if 'nan' in (a.op, b.op): return FALSE
    return mk('le', a, b, sort='b')


def eq(a, b):
    if a.sort == 'b' and b.sort == 'b':
        if a is b: return TRUE
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if isnum(a) and isnum(b): return B(a.a[0] == b.a[0])
    if a is b and a.sort == 'i': return TRUE
    if isnum(a) and not isnum(b): a, b = b, a
    if a.sort == 'i' and isnum(b) and a.op == 'ite': return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if 'nan' in (a.op, b.op): return FALSE
    if a.id > b.id and not isnum(b): a, b = b, a
    return mk('eq', a, b, sort='b')


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if a.sort == 'b' and b.sort == 'b':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    # nested same condition
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    A, Bk = a.op, b.op
    if A in AGG or Bk in AGG: return ite_agg(c, a, b)
    s = a.sort if a.sort == b.sort else ('f' if {a.sort, b.sort} <= {'i', 'f'} else a.sort)
    return mk('ite', c, a, b, sort=s)


# ---------------------------------------------------------------- aggregates
AGG = {'rec', 'arr', 'opt', 'var', 'uptr', 'ptr', 'iter', 'clo', 'bins', 'undef'}


def rec(name, names, vals): return mk('rec', name, tuple(names), *vals, sort='rec')


def rec_get(r, f):
    try: return r.a[2 + r.a[1].index(f)]
    except ValueError: raise KeyError('%s in %s' % (f, r.a[0]))


def rec_set(r, f, v):
    i = 2 + r.a[1].index(f)
    if r.a[i] is v: return r
    a = list(r.a); a[i] = v
    return mk('rec', *a, sort='rec')


def arr(vals): return mk('arr', *vals, sort='arr')


def opt(has, val): return mk('opt', has, val, sort='opt')


def var(tag, alts): return mk('var', tag, *alts, sort='var')


def uptr(classes, tag, pays): return mk('uptr', classes, tag, *pays, sort='uptr')


def ptr(nn, lv): return mk('ptr', nn, lv, sort='ptr')


def iter_(lv, idx): return mk('iter', lv, idx, sort='iter')


def undef(what): return mk('undef', what, sort='undef')


def nothing(what):
    """The contents of an empty optional and the like."""
    return mk('undef', what, 'none', sort='undef')


def opq(what, *deps, sort='f'): return mk('opq', what, *deps, sort=sort)


def ite_agg(c, a, b):
    if a.op == 'undef' and b.op == 'undef': return a if len(a.a) == 1 else b
    if a.op == 'undef' or b.op == 'undef':
        # undefined on one side: keep the tag so that a read is visible, but an
        # unread join stays harmless
        u, v = (a, b) if a.op == 'undef' else (b, a)
        if v.op == 'rec': return rec(v.a[0], v.a[1], [ite(c, u if a is u else x, x if a is u else u) for x in v.a[2:]])
        if v.op in ('arr',): return arr([ite(c, u if a is u else x, x if a is u else u) for x in v.a])
        return mk('ite', c, a, b, sort=v.sort)
    if a.op != b.op:
        return opq('ite-shape', c, a, b, sort=a.sort)
    o = a.op
    if o == 'rec':
        if a.a[0] != b.a[0] or len(a.a) != len(b.a): return opq('ite-rec', c, a, b, sort='rec')
        return rec(a.a[0], a.a[1], [ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if o == 'arr':
        if len(a.a) != len(b.a): return opq('ite-arr', c, a, b, sort='arr')
        return arr([ite(c, x, y) for x, y in zip(a.a, b.a)])
    if o == 'opt':
        # value of an empty optional is a don't-care: prefer the engaged side
        if a.a[0] is FALSE: v = b.a[1]
        elif b.a[0] is FALSE: v = a.a[1]
        else: v = ite(c, a.a[1], b.a[1])
        return opt(ite(c, a.a[0], b.a[0]), v)
    if o == 'var':
        vs = []
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            if isnum(a.a[0]) and a.a[0].a[0] != i: vs.append(y)
            elif isnum(b.a[0]) and b.a[0].a[0] != i: vs.append(x)
            else: vs.append(ite(c, x, y))
        return var(ite(c, a.a[0], b.a[0]), vs)
    if o == 'uptr':
        if a.a[0] != b.a[0]: return opq('ite-uptr', c, a, b, sort='uptr')
        vs = []
        for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
            if isnum(a.a[1]) and a.a[1].a[0] != i + 1: vs.append(y)
            elif isnum(b.a[1]) and b.a[1].a[0] != i + 1: vs.append(x)
            else: vs.append(ite(c, x, y))
        return uptr(a.a[0], ite(c, a.a[1], b.a[1]), vs)
    if o == 'ptr':
        if a.a[0] is FALSE: lv = b.a[1]
        elif b.a[0] is FALSE: lv = a.a[1]
        elif a.a[1] == b.a[1]: lv = a.a[1]
        else: lv = LVite(c, a.a[1], b.a[1])
        return ptr(ite(c, a.a[0], b.a[0]), lv)
    if o == 'iter':
        if a.a[0] == b.a[0]: return iter_(a.a[0], ite(c, a.a[1], b.a[1]))
        return opq('ite-iter', c, sort='iter')
    return opq('ite-' + o, c, sort=a.sort)


# ---------------------------------------------------------------- sequences
EMPTY = mk('sempty', sort='seq')


def sseq(name, et): return mk('sseq', name, et, sort='seq')


def size(s):
    o = s.op
    if o == 'sempty': return num(0, 'i')
    if o == 'push': return add(size(s.a[0]), num(1, 'i'))
    if o == 'set': return size(s.a[0])
    if o in ('popf', 'popb'): return sub(size(s.a[0]), num(1, 'i'))
    if o == 'ite': return ite(s.a[0], size(s.a[1]), size(s.a[2]))
    return mk('size', s, sort='i')


def push(s, v): return mk('push', s, v, sort='seq')


def popf(s):
    if s.op == 'push' and s.a[0].op == 'sempty': return EMPTY
    if s.op == 'sempty': return EMPTY
    if s.op == 'push' and s.a[0].op == 'push': return push(popf(s.a[0]), s.a[1])
    return mk('popf', s, sort='seq')


def popb(s):
    if s.op == 'push': return s.a[0]
    return mk('popb', s, sort='seq')


def setat(s, i, v):
    if s.op == 'push':
        sz = size(s.a[0])
        if i is sz: return push(s.a[0], v)
        if isnum(i) and isnum(sz) and i.a[0] < sz.a[0]: return push(setat(s.a[0], i, v), s.a[1])
    if s.op == 'set' and s.a[1] is i: return setat(s.a[0], i, v)
    return mk('set', s, i, v, sort='seq')


def lv_after(L, lv):
    if isinstance(lv, LVite): return LVite(after(L, lv.c), lv_after(L, lv.a), lv_after(L, lv.b))
    if not isinstance(lv, LV): return lv
    return LV(lv.root, tuple((('i', after(L, p[1])) + p[2:]) if isinstance(p, tuple) and p[0] == 'i' else p for p in lv.path))


# ---------------------------------------------------------------- lvalues
class LV:
    __slots__ = ('root', 'path', '_h')

    def __init__(self, root, path=()):
        self.root = root; self.path = path; self._h = hash((root, path))

    def __eq__(self, o): return isinstance(o, LV) and self.root == o.root and self.path == o.path
    def __hash__(self): return self._h
    def __add__(self, p): return LV(self.root, self.path + (p,))
    def __repr__(self): return '&%s%s' % (self.root, ''.join('.' + str(p) for p in self.path))


class LVite:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __eq__(self, o): return isinstance(o, LVite) and (self.c, self.a, self.b) == (o.c, o.a, o.b)
    def __hash__(self): return hash((self.c.id, self.a, self.b))
    def __add__(self, p): return LVite(self.c, self.a + p, self.b + p)


# ---------------------------------------------------------------- loops
class Loop:
    """mus: tuple of (mu, init, next); done: exit condition over the mus."""
    __slots__ = ('mus', 'done', 'where', 'id', 'carried')
    _tab = {}

    def __new__(cls, mus, done, where):
        key = (tuple((m.id, i.id, n.id) for m, i, n in mus), done.id)
        l = cls._tab.get(key)
        if l is None:
            l = object.__new__(cls)
            l.mus = mus; l.done = done; l.where = where; l.id = len(cls._tab)
            cls._tab[key] = l
        return l

    def __repr__(self): return 'L%d@%s' % (self.id, self.where)
    def __hash__(self): return hash(('L', self.id))


def after(L, e):
    """Value of e in the iteration in which L stops."""
    o = e.op
    if o in ('n', 'b', 'sym', 'unit', 'str', 'sempty', 'sseq', 'inf', 'ninf', 'nan', 'undef'): return e
    if o == 'rec': return rec(e.a[0], e.a[1], [after(L, x) for x in e.a[2:]])
    if o == 'arr': return arr([after(L, x) for x in e.a])
    if o == 'opt': return opt(after(L, e.a[0]), after(L, e.a[1]))
    if o == 'var': return var(after(L, e.a[0]), [after(L, x) for x in e.a[1:]])
    if o == 'uptr': return uptr(e.a[0], after(L, e.a[1]), [after(L, x) for x in e.a[2:]])
    if o == 'iter': return iter_(lv_after(L, e.a[0]), after(L, e.a[1]))
    if o == 'ptr': return ptr(after(L, e.a[0]), lv_after(L, e.a[1]))
    if o in ('bins', 'clo', 'riter'): return e
    if not (free_mus(e) & {m for m, _, _ in L.mus}): return e
    return mk('after', L, e, sort=e.sort)


def children(n):
    out = []
    for x in n.a:
        if isinstance(x, Node): out.append(x)
        elif isinstance(x, Loop):
            for m, i, nx in x.mus: out += [i, nx]
            out.append(x.done)
        elif isinstance(x, (LV, LVite)): out += lv_nodes(x)
    return out


def lv_nodes(lv):
    if isinstance(lv, LVite): return [lv.c] + lv_nodes(lv.a) + lv_nodes(lv.b)
    return [p[1] for p in lv.path if isinstance(p, tuple) and p[0] == 'i']


def free_mus(n):
    if n._fv is not None: return n._fv
    # iterative post-order
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x._fv is not None: continue
        if not done:
            stack.append((x, True))
            for c in children(x):
                if c._fv is None: stack.append((c, False))
        else:
            if x.op == 'mu': x._fv = frozenset([x]); continue
            s = set()
            L = None
            for y in x.a:
                if isinstance(y, Loop): L = y
            for c in children(x): s |= c._fv if c._fv is not None else free_mus(c)
            if L is not None:
                s -= {m for m, _, _ in L.mus}
            x._fv = frozenset(s)
    return n._fv


def reach(nodes):
    """All nodes reachable from the given ones."""
    seen = {}
    st = [n for n in nodes]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen[x.id] = x
        st += children(x)
    return seen


def subst(n, mp, memo=None):
    """Substitutes nodes (by identity) in a value graph."""
    if memo is None: memo = {}
    r = memo.get(n.id)
    if r is not None: return r
    if n in mp:
        memo[n.id] = mp[n]; return mp[n]
    o = n.op
    if o in ('n', 'b', 'unit', 'str', 'sempty', 'inf', 'ninf', 'nan', 'undef', 'sym', 'sseq', 'mu'):
        memo[n.id] = n; return n
    S = lambda x: subst(x, mp, memo)
    if o == 'after':
        L = n.a[0]
        L2 = Loop(tuple((m, S(i), S(nx)) for m, i, nx in L.mus), S(L.done), L.where)
        r = after(L2, S(n.a[1]))
    elif o == 'ptr' or o == 'iter' or o == 'bins':
        r = mk(o, *[S(x) if isinstance(x, Node) else x for x in n.a], sort=n.sort)
    else:
        a = [S(x) if isinstance(x, Node) else x for x in n.a]
        r = rebuild(n, a)
    memo[n.id] = r
    return r


def rebuild(n, a):
    o = n.op
    f = {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'neg': neg, 'not': not_, 'and': and_, 'or': or_, 'lt': lt,
         'le': le, 'eq': eq, 'ite': ite, 'size': size, 'push': push, 'popf': popf, 'popb': popb}.get(o)
    if f: return f(*a)
    if o == 'at': return at_leaf(*a, sort=n.sort)
    return mk(o, *a, sort=n.sort)


def at_leaf(s, i, path, sort='f'):
    """Scalar (or nested sequence) leaf `path` of element i of sequence s."""
    while True:
        o = s.op
        if o == 'push':
            sz = size(s.a[0])
            if isnum(i) and isnum(sz):
                if i.a[0] == sz.a[0]: return get_path(s.a[1], path)
                s = s.a[0]; continue
            if i is sz: return get_path(s.a[1], path)
            return ite(eq(i, sz), get_path(s.a[1], path), at_leaf(s.a[0], i, path, sort))
        if o == 'popf': i = add(i, num(1, 'i')); s = s.a[0]; continue
        if o == 'popb': s = s.a[0]; continue
        if o == 'set':
            return ite(eq(i, s.a[1]), get_path(s.a[2], path), at_leaf(s.a[0], i, path, sort))
        if o == 'ite' and (s.a[1].op == 'push' or s.a[2].op == 'push'):
            return ite(s.a[0], at_leaf(s.a[1], i, path, sort), at_leaf(s.a[2], i, path, sort))
        break
    return mk('at', s, i, path, sort=sort)


def get_path(v, path):
    for p in path: v = get(v, p)
    return v


def get(v, p):
    o = v.op
    if o == 'undef': return mk('undef', *v.a, sort='undef')
    if o == 'opq': return opq('get', v, str(p), sort='f')
    if o == 'ite' : # aggregate ite with undef/opaque side
        return ite(v.a[0], get(v.a[1], p), get(v.a[2], p))
    if isinstance(p, str): return rec_get(v, p)
    k = p[0]
    if k == 'o': return v.a[1]
    if k == 'oh': return v.a[0]
    if k == 'v': return v.a[1 + p[1]]
    if k == 'vt': return v.a[0]
    if k == 'u': return v.a[2 + v.a[0].index(p[1])]
    if k == 'ut': return v.a[1]
    if k == 'i' and o == 'arr':
        i = p[1]
        if isnum(i):
            j = int(i.a[0])
            if 0 <= j < len(v.a): return v.a[j]
            return opq('arr-oob', sort=v.a[0].sort)
        r = v.a[-1]
        for j in range(len(v.a) - 2, -1, -1): r = ite(eq(i, num(j, 'i')), v.a[j], r)
        return r
    raise KeyError('get %r of %s' % (p, o))


def show(n, d=6):
    o = n.op
    if o == 'n':
        f = n.a[0]
        return str(f.numerator) if f.denominator == 1 else '%g' % float(f)
    if o == 'b': return str(n.a[0])
    if o in ('sym', 'mu'): return str(n.a[0])
    if o == 'sseq': return '<%s>' % n.a[0]
    if d <= 0: return '…'
    s = lambda x: show(x, d - 1) if isinstance(x, Node) else str(x)
    b = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '==', 'and': '&&', 'or': '||'}.get(o)
    if b: return '(%s %s %s)' % (s(n.a[0]), b, s(n.a[1]))
    if o == 'not': return '!' + s(n.a[0])
    if o == 'neg': return '-' + s(n.a[0])
    if o == 'ite': return 'ite(%s, %s, %s)' % tuple(s(x) for x in n.a)
    if o == 'fn': return '%s(%s)' % (n.a[0], ', '.join(s(x) for x in n.a[1:]))
    if o == 'rec': return '{%s}' % ', '.join('%s=%s' % (k, s(v)) for k, v in zip(n.a[1], n.a[2:]))
    if o == 'at': return '%s[%s]%s' % (s(n.a[0]), s(n.a[1]), ''.join('.' + str(p) for p in n.a[2]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in n.a))
