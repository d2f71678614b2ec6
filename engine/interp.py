"""Gated value-graph construction.

Every function of the repository is read structurally (nothing is executed):
assignments become functional updates of a memory of value-graph nodes, joins
become `ite` nodes, loops become `Loop` nodes whose carried cells are found by
a data-flow fixpoint, and calls to repository functions are spliced in.  What
is not modelled becomes an explicit opaque node, never a guess."""
import math
from fractions import Fraction
from node import *
import node as N
from prog import AnalysisError


class State:
    __slots__ = ('mem', 'facts', 'pc')

    def __init__(self, mem=None, facts=None, pc=TRUE):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.pc = pc

    def clone(self): return State(dict(self.mem), dict(self.facts), self.pc)


class Unmodelled(Exception):
    pass


PI = sym('PI', 'f')
FLTMAX = sym('FLT_MAX', 'f')


def snap(fr):
    """Numeric constants: exact when they are small integers, multiples of pi
    recognised, everything else to six significant digits, so that a literal
    and its float/double rounding are one value."""
    if fr.denominator == 1 and abs(fr) < 2 ** 53: return num(fr)
    x = float(fr)
    q = x / math.pi
    f = Fraction(q).limit_denominator(720)
    if f != 0 and abs(float(f) - q) <= 3e-7 * abs(q) and f.denominator in (
            1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 32, 36, 40, 45, 60, 72, 90, 120, 180, 360, 720):
        return mul(num(f), PI)
    if abs(x) in (float(2 ** 31 - 1),): return num(fr)
    return num(Fraction('%.5e' % x))


def const(cv, sort):
    if isinstance(cv, str):
        if cv == 'inf': return mk('inf')
        if cv == '-inf': return mk('ninf')
        if cv == 'nan': return mk('nan')
        x = float.fromhex(cv)
        if abs(x) in (3.4028234663852886e+38, 1.7976931348623157e+308): return FLTMAX if x > 0 else neg(FLTMAX)
        if sort == 'b': return B(x != 0)
        if sort == 'i': return num(int(x), 'i')
        return snap(Fraction(x))
    if sort == 'b': return B(cv)
    if sort == 'f': return snap(Fraction(cv))
    return num(cv, 'i')


class Interp:
    def __init__(self, P):
        self.P = P
        self.frame = 0
        self.obl = []        # partial-operation obligations
        self.unk = []        # unmodelled constructs met
        self.loops = []      # (loop, where, fn, path condition, carried variables of type float)
        self.vtypes = {}
        self.prov = {}
        self.stack = []
        self.funcs_seen = set()
        self.calls_seen = 0
        self.ghits = []      # accesses to mutable globals: (key, where, write)
        self.extcalls = {}   # external callee -> where
        self.cur = None
        self.undefs = []
        self.hid = {}        # global variables whose value outlives a call (hist.py)
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ utilities
    def where(self, e=None):
        f = self.cur
        if f is None: return '?'
        ln = (e or {}).get('ln') if isinstance(e, dict) else e
        file = f.get('file', '?')
        return '%s:%s (%s)' % (file.replace('/repo/', ''), ln or f.get('ln'), f.get('qn', '?'))

    def note(self, why, e=None):
        self.unk.append((why, self.where(e)))

    def opaque(self, why, e, T, *deps):
        self.note(why, e)
        return self.skel(T, lambda p, s: opq(why, tuple(p), *deps, sort=s))

    def oblige(self, kind, cond, st, e):
        c = self.simp(cond, st.facts)
        if c is not TRUE: self.obl.append((kind, self.where(e), c, st.pc))
        else: self.obl.append((kind, self.where(e), TRUE, TRUE))

    # ------------------------------------------------------------ types
    def skel(self, T, leaf, path=()):
        s = T.sort
        if s in ('b', 'i', 'f', 'seq'): return leaf(path, s)
        if s == 'rec':
            n, fs = self.recfields(T)
            return rec(n, [f for f, _ in fs], [self.skel(t, leaf, path + (f,)) for f, t in fs])
        if s == 'arr': return arr([self.skel(T.e, leaf, path + (('i', num(i, 'i')),)) for i in range(int(T.len))])
        if s == 'opt':
            return opt(leaf(path + (('oh',),), 'b'), self.skel(T.targs[0], leaf, path + (('o',),)))
        if s == 'var':
            alts = self.alts(T)
            return var(leaf(path + (('vt',),), 'i'), [self.skel(t, leaf, path + (('v', i),)) for i, t in enumerate(alts)])
        if s == 'uptr':
            cs = self.uclasses(T)
            return uptr(cs, leaf(path + (('ut',),), 'i'),
                        [self.skel(self.rectype(c), leaf, path + (('u', c),)) for c in cs])
        if s == 'ref': return opq('ref', sort='ptr')
        if s == 'ptr': return ptr(leaf(path + (('pn',),), 'b'), LV('?ptr', path))
        if s == 'str': return STR
        if s == 'unit': return UNIT
        if s == 'iter': return iter_(LV('?iter'), leaf(path, 'i'))
        if s == 'clo': return mk('clo', None, None, (), sort='clo')
        return opq('type', T.s, sort='opaque')

    def recfields(self, T):
        q = T.tmpl
        if q == 'absl::Status': return 'absl::Status', [('code', INT)]
        if q == 'absl::StatusOr': return 'absl::StatusOr', [('code', INT), ('val', T.targs[0])]
        if q == 'std::pair': return 'std::pair', [('first', T.targs[0]), ('second', T.targs[1])]
        if q == 'std::tuple': return 'std::tuple', [('t%d' % i, t) for i, t in enumerate(self.flat(T.targs))]
        return T.n, [(f['n'], f['t']) for f in self.P.fields(T.n)]

    def flat(self, targs):
        out = []
        for t in targs:
            if isinstance(t, list): out += t
            elif isinstance(t, dict) and 'pack' in t: out += t['pack']
            else: out.append(t)
        return out

    def alts(self, T): return self.flat(T.targs)

    def uclasses(self, T):
        b = T.targs[0]
        if b.k != 'rec': return ()
        return self.P.concrete(b.n)

    def rectype(self, name):
        for T in self.P.types.values():
            if T.k == 'rec' and T.n == name and not T.c: return T
        for T in self.P.types.values():
            if T.k == 'rec' and T.n == name: return T
        raise AnalysisError('type ' + name)

    def absent(self, T):
        """The contents of something that is not there."""
        return self.skel(T, lambda p, s: EMPTY if s == 'seq' else (FALSE if p and p[-1] in (('oh',),) else (num(0, 'i') if p and p[-1] in (('vt',), ('ut',)) else N.nothing(s))))

    def undef(self, T): return self.skel(T, lambda p, s: EMPTY if s == 'seq' else (FALSE if p and p[-1] in (('oh',),) else (num(0, 'i') if p and p[-1] in (('vt',), ('ut',)) else (N.nothing if ('o',) in p or any(q[0] in 'vu' and len(q) == 2 for q in p if isinstance(q, tuple)) else undef)(s))))

    def zero(self, T):
        def leaf(p, s):
            if s == 'seq': return EMPTY
            if s == 'b': return FALSE
            return num(0, s)
        return self.skel(T, leaf)

    def symbolic(self, T, name):
        def leaf(p, s):
            nm = name + ''.join(pstr(x) for x in p)
            if s == 'seq': return sseq(nm, T.s)
            return sym(nm, s)
        return self.skel(T, leaf)

    # ------------------------------------------------------------ memory
    def load(self, st, lv, T=None):
        if isinstance(lv, LVite): return ite(lv.c, self.load(st, lv.a, T), self.load(st, lv.b, T))
        v = st.mem.get(lv.root)
        if v is None: return self.opaque('dangling ' + str(lv.root), None, T) if T else opq('dangling')
        path = lv.path
        for k, p in enumerate(path):
            if v.sort == 'seq':
                if p[0] != 'i': raise Unmodelled('seq path %r' % (p,))
                rest = path[k + 1:]
                et = p[2]
                if not rest: return self.skel(et, lambda q, s: at_leaf(v, p[1], q, s))
                t2 = T if T is not None else self.subtype(et, rest)
                return self.skel(t2, lambda q, s: at_leaf(v, p[1], rest + q, s))
            if p == ('u*',):
                cs, tag = v.a[0], v.a[1]
                if isnum(tag) and tag.a[0] > 0: v = v.a[1 + int(tag.a[0])]; continue
                if len(cs) == 1: v = v.a[2]; continue
                raise Unmodelled('dynamic object')
            v = get(v, p)
        return v

    def subtype(self, T, path):
        for p in path:
            if isinstance(p, str): T = dict(self.recfields(T)[1])[p]
            elif p[0] == 'o': T = T.targs[0]
            elif p[0] == 'i': T = p[2] if len(p) > 2 else T.e
            elif p[0] == 'v': T = self.alts(T)[p[1]]
            else: raise Unmodelled('subtype')
        return T

    def store(self, st, lv, val):
        if isinstance(lv, LVite):
            a = self.load(st, lv.a); b = self.load(st, lv.b)
            self.store(st, lv.a, ite(lv.c, val, a))
            b = self.load(st, lv.b)
            self.store(st, lv.b, ite(lv.c, b, val))
            return
        if lv.root not in st.mem and lv.path: raise Unmodelled('store to ' + str(lv.root))
        if not lv.path: st.mem[lv.root] = val
        else: st.mem[lv.root] = self.setp(st.mem[lv.root], lv.path, val)

    def setp(self, v, path, val):
        if not path: return val
        p = path[0]
        if v.sort == 'seq':
            if len(path) == 1: return setat(v, p[1], val)
            cur = self.skel(p[2], lambda q, s: at_leaf(v, p[1], q, s))
            return setat(v, p[1], self.setp(cur, path[1:], val))
        o = v.op
        if isinstance(p, str): return rec_set(v, p, self.setp(rec_get(v, p), path[1:], val))
        k = p[0]
        if k == 'i':
            i = p[1]
            a = list(v.a)
            if isnum(i):
                j = int(i.a[0])
                if not 0 <= j < len(a): raise Unmodelled('array index')
                a[j] = self.setp(a[j], path[1:], val)
            else:
                for j in range(len(a)): a[j] = ite(eq(i, num(j, 'i')), self.setp(a[j], path[1:], val), a[j])
            return arr(a)
        if k == 'u*':
            if isnum(v.a[1]) and v.a[1].a[0] > 0: k = 'u'; p = ('u', v.a[0][int(v.a[1].a[0]) - 1])
            elif len(v.a[0]) == 1: k = 'u'; p = ('u', v.a[0][0])
            else: raise Unmodelled('dynamic store')
        idx = {'o': 1, 'oh': 0, 'vt': 0, 'ut': 1}.get(k)
        if k == 'v': idx = 1 + p[1]
        if k == 'u': idx = 2 + v.a[0].index(p[1])
        if idx is None: raise Unmodelled('store path %r' % (p,))
        a = list(v.a); a[idx] = self.setp(a[idx], path[1:], val)
        return mk(o, *a, sort=v.sort)

    def temp(self, st, val, tag='t'):
        self.frame += 0
        r = ('tmp', self.fid, self.ntmp)
        self.ntmp += 1
        st.mem[r] = val
        return LV(r)

    fid = 0
    ntmp = 0
    cutload = False

    # ------------------------------------------------------------ facts
    def simp(self, c, facts):
        if not facts or c.op == 'b': return c
        return self._simp(c, facts, {})

    def _simp(self, c, F, memo):
        r = memo.get(c.id)
        if r is not None: return r
        if c in F: r = B(F[c])
        else:
            o = c.op
            if o == 'not': r = not_(self._simp(c.a[0], F, memo))
            elif o == 'and':
                r = and_(self._simp(c.a[0], F, memo), self._simp(c.a[1], F, memo))
                if r.op == 'and' and 'nand' in F:
                    m = set(N.flat('and', r, []))
                    if any(k <= m for k in F['nand']): r = FALSE
            elif o == 'or': r = or_(self._simp(c.a[0], F, memo), self._simp(c.a[1], F, memo))
            elif o == 'ite' and c.sort in ('b', 'i'):
                k = self._simp(c.a[0], F, memo)
                if k is TRUE: r = self._simp(c.a[1], F, memo)
                elif k is FALSE: r = self._simp(c.a[2], F, memo)
                else: r = ite(k, self._simp(c.a[1], F, memo), self._simp(c.a[2], F, memo))
            elif o in ('lt', 'le', 'eq') and c.sort == 'b':
                a, b = c.a
                x = self._simp(a, F, memo) if a.op == 'ite' and a.sort == 'i' else a
                y = self._simp(b, F, memo) if b.op == 'ite' and b.sort == 'i' else b
                if x is not a or y is not b:
                    r = {'lt': lt, 'le': le, 'eq': eq}[o](x, y)
                    if r.op != 'b' and r is not c: r = self._simp(r, F, memo)
                else:
                    r = c
                    if o == 'eq':
                        k = F.get(('c', a.id))
                        if k is not None and isnum(b): r = B(k == b.a[0])
                        elif F.get(lt(a, b)) or F.get(lt(b, a)): r = FALSE
                    elif o == 'lt':
                        if F.get(lt(b, a)) or F.get(le(b, a)) and a.sort != 'i' or F.get(eq(a, b)): r = FALSE
                        else: r = self.bnd(c, a, b, F)
                    elif o == 'le':
                        if F.get(lt(a, b)) or F.get(eq(a, b)): r = TRUE
                        elif F.get(lt(b, a)): r = FALSE
            else: r = c
        memo[c.id] = r
        return r

    def bnd(self, c, a, b, F):
        """integer x < n against known bounds of x."""
        if a.sort != 'i': return c
        if isnum(b):
            lo, hi = F.get(('b', a.id), (None, None))
            if a.op == 'size' and (lo is None or lo < 0): lo = 0
            if F.get(('c', a.id)) is not None: return B(F[('c', a.id)] < b.a[0])
            if hi is not None and hi < b.a[0]: return TRUE
            if lo is not None and lo >= b.a[0]: return FALSE
        elif isnum(a):
            lo, hi = F.get(('b', b.id), (None, None))
            if b.op == 'size' and (lo is None or lo < 0): lo = 0
            if F.get(('c', b.id)) is not None: return B(a.a[0] < F[('c', b.id)])
            if lo is not None and lo > a.a[0]: return TRUE
            if hi is not None and hi <= a.a[0]: return FALSE
        return c

    def assume(self, st, c, pc=True):
        if pc: st.pc = and_(st.pc, c)
        self._assume(st.facts, c, True)

    def _assume(self, F, c, v):
        while c.op == 'not': c = c.a[0]; v = not v
        if c.op == 'b': return
        if c.op == 'and' and v or c.op == 'or' and not v:
            self._assume(F, c.a[0], v); self._assume(F, c.a[1], v)
        F[c] = v
        if v and c.op == 'fn' and c.a[0] in ('isfinite', 'isnan', 'isinf'):
            for o in ('isfinite', 'isnan', 'isinf'):
                if o != c.a[0]: F[mk('fn', o, *c.a[1:], sort='b')] = False
        if c.op == 'and' and not v: F['nand'] = F.get('nand', ()) + (frozenset(N.flat('and', c, [])),)
        if c.op == 'or' and v: F['nand'] = F.get('nand', ()) + (frozenset(not_(x) for x in N.flat('or', c, [])),)
        if c.op == 'or' and v:
            # unit propagation
            x, y = self.simp(c.a[0], F), self.simp(c.a[1], F)
            if x is FALSE: self._assume(F, y, True)
            elif y is FALSE: self._assume(F, x, True)
        if c.op == 'eq' and v and isnum(c.a[1]): F[('c', c.a[0].id)] = c.a[1].a[0]
        if c.op == 'lt' and c.a[0].sort == 'i' and c.a[1].sort == 'i':
            a, b = c.a
            if not v: a, b = b, a     # b <= a
            d = 1 if v else 0
            if isnum(b): self._bound(F, a, None, b.a[0] - d)
            if isnum(a): self._bound(F, b, a.a[0] + d, None)
        if c.op == 'eq' and not v and isnum(c.a[1]) and c.a[0].sort == 'i':
            k = c.a[1].a[0]
            lo, hi = F.get(('b', c.a[0].id), (None, None))
            if lo is None and c.a[0].op == 'size': lo = 0
            if lo == k: self._bound(F, c.a[0], k + 1, None)
            if hi == k: self._bound(F, c.a[0], None, k - 1)

    def _bound(self, F, x, lo, hi):
        # x = y + k  -> bound y as well
        l, h = F.get(('b', x.id), (None, None))
        if x.op == 'size' and l is None: l = 0
        if lo is not None and (l is None or lo > l): l = lo
        if hi is not None and (h is None or hi < h): h = hi
        F[('b', x.id)] = (l, h)
        if l is not None and l == h: F[('c', x.id)] = l
        if x.op == 'add' and isnum(x.a[1]):
            k = x.a[1].a[0]
            self._bound(F, x.a[0], None if lo is None else lo - k, None if hi is None else hi - k)

    def merge(self, c, s1, s2, pc):
        mem = {}
        m2 = s2.mem
        for r, v in s1.mem.items():
            w = m2.get(r)
            if w is None: continue
            mem[r] = v if v is w else ite(c, v, w)
        return State(mem, meet(s1.facts, s2.facts), pc)

    # ------------------------------------------------------------ statements
    # exec returns {kind: (guard, state, value)}; kinds N, R, B, C
    def join(self, o, n):
        if o is None: return n
        if n is None: return o
        g = or_(o[0], n[0])
        v = None
        if o[2] is not None and n[2] is not None: v = self.itev(o[0], o[2], n[2])
        return (g, self.merge(o[0], o[1], n[1], or_(o[1].pc, n[1].pc)), v)

    def itev(self, c, a, b):
        if isinstance(a, (LV, LVite)) or isinstance(b, (LV, LVite)):
            if a == b: return a
            return LVite(c, a, b)
        return ite(c, a, b)

    def block(self, stmts, st, env):
        acc = {}
        cur, g0 = st, TRUE
        for s in stmts:
            if s is None: continue
            out = self.exec(s, cur, env)
            for k, (g, s2, v) in out.items():
                if k != 'N': acc[k] = self.join(acc.get(k), (and_(g0, g), s2, v))
            if 'N' not in out: cur = None; break
            g, cur, _ = out['N']
            g0 = and_(g0, g)
        if cur is not None: acc['N'] = (g0, cur, None)
        return acc

    def branch(self, c, st, f1, f2):
        """Runs f1 under c and f2 under not c, merging the outcomes by kind."""
        c = self.simp(c, st.facts)
        if c is TRUE: return f1(st)
        if c is FALSE: return f2(st)
        s1 = st.clone(); self.assume(s1, c)
        s2 = st.clone(); self.assume(s2, not_(c))
        o1 = f1(s1); o2 = f2(s2)
        out = {}
        for k in set(o1) | set(o2):
            if k in o1 and k in o2:
                g1, a, v1 = o1[k]; g2, b, v2 = o2[k]
                g = ite(c, g1, g2)
                pc = st.pc if g is TRUE else or_(a.pc, b.pc)
                v = self.itev(c, v1, v2) if v1 is not None and v2 is not None else None
                out[k] = (g, self.merge(c, a, b, pc), v)
            elif k in o1: out[k] = (and_(c, o1[k][0]),) + o1[k][1:]
            else: out[k] = (and_(not_(c), o2[k][0]),) + o2[k][1:]
        return out

    def exec(self, s, st, env):
        k = s['k']
        if k == 'Expr':
            self.effect(s['e'], st, env)
            return {'N': (TRUE, st, None)}
        if k == 'Block': return self.block(s['b'], st, env)
        if k == 'Decl':
            for v in s['v']: self.decl(v, st, env)
            return {'N': (TRUE, st, None)}
        if k == 'If':
            def rest(st):
                if s.get('cv'): self.decl(s['cv'], st, env)
                c = self.cond(s['c'], st, env)
                return self.branch(c, st, lambda x: self.exec(s['a'], x, env),
                                   lambda x: self.exec(s['e'], x, env) if s.get('e') else {'N': (TRUE, x, None)})
            if s.get('init'):
                o = self.exec(s['init'], st, env); st = o['N'][1]
            return rest(st)
        if k == 'Return':
            v = UNIT
            if s.get('e'):
                if env['#ret'].sort == 'ref': v = self.lval(s['e'], st, env)
                else: v = self.rval(s['e'], st, env)
            return {'R': (TRUE, st, v)}
        if k == 'Break': return {'B': (TRUE, st, None)}
        if k == 'Continue': return {'C': (TRUE, st, None)}
        if k == 'Null': return {'N': (TRUE, st, None)}
        if k in ('For', 'While', 'Do', 'Range'): return self.loop(s, st, env)
        if k == 'Switch': return self.switch(s, st, env)
        if k in ('Case', 'Default'): return self.exec(s['s'], st, env)
        raise Unmodelled('statement ' + str(s.get('why', k)))

    def decl(self, v, st, env):
        T = v['t']
        if v.get('static') or v.get('g'):
            env[v['d']] = LV(self.glob(v.get('static') or v['g'], st, v, env))
            return
        if T.sort == 'ref':
            env[v['d']] = self.lval(v['init'], st, env) if v.get('init') else LV('?unbound')
        else:
            val = self.rval(v['init'], st, env) if v.get('init') else self.undef(T)
            r = ('v', self.fid, v['d'], v['n'])
            st.mem[r] = val
            self.vtypes[r] = T
            env[v['d']] = LV(r)
        for h in v.get('holding', ()): self.decl(h, st, env)

    def switch(self, s, st, env):
        if s.get('init'): st = self.exec(s['init'], st, env)['N'][1]
        if s.get('cv'): self.decl(s['cv'], st, env)
        v = self.rval(s['c'], st, env)
        segs = []   # [labels(None=default), stmts]
        body = s['b']['b'] if s['b']['k'] == 'Block' else [s['b']]
        for x in body:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(None if x['k'] == 'Default' else x)
                x = x['s']
            if labels: segs.append([labels, []])
            if segs: segs[-1][1].append(x)
        allv = []
        for ls, _ in segs:
            for l in ls:
                if l is not None:
                    if l.get('v2'): raise Unmodelled('case range')
                    allv.append(num(l['v']['cv'], 'i'))

        def run(i):
            def go(st):
                stm = []
                for _, b in segs[i:]: stm += b
                o = self.block(stm, st, env)
                n = self.join(o.pop('B', None), o.pop('N', None))
                if n is not None: o['N'] = n
                return o
            return go

        def chain(i, st):
            if i == len(segs):
                for j, (ls, _) in enumerate(segs):
                    if None in ls: return run(j)(st)
                return {'N': (TRUE, st, None)}
            c = FALSE
            for l in segs[i][0]:
                if l is not None: c = or_(c, eq(v, num(l['v']['cv'], 'i')))
            if c is FALSE: return chain(i + 1, st)
            return self.branch(c, st, run(i), lambda x: chain(i + 1, x))
        return chain(0, st)

    # ------------------------------------------------------------ loops
    def loop(self, s, st, env):
        k = s['k']
        if k == 'For' and s.get('init'): st = self.exec(s['init'], st, env)['N'][1]
        if k == 'Range':
            if s.get('init'): st = self.exec(s['init'], st, env)['N'][1]
            for x in ('range', 'begin', 'end'):
                if s.get(x): st = self.exec(s[x], st, env)['N'][1]

        def once(st):
            """-> {'X': cond-exit, 'B': break, 'R': return, 'N': next}"""
            def cont(o):
                n = self.join(o.pop('C', None), o.pop('N', None))
                if n is not None: o['N'] = n
                return o
            if k == 'Do':
                o = cont(self.exec(s['b'], st, env))
                if 'N' in o:
                    g, s2, _ = o.pop('N')
                    c = self.cond(s['c'], s2, env)
                    o2 = self.branch(c, s2, lambda x: {'N': (TRUE, x, None)}, lambda x: {'X': (TRUE, x, None)})
                    for kk, (g2, s3, v) in o2.items(): o[kk] = (and_(g, g2), s3, v)
                return o
            if s.get('cv'): self.decl(s['cv'], st, env)
            c = self.cond(s['c'], st, env) if s.get('c') else TRUE

            def body(st):
                if k == 'Range' and s.get('lv'): st = self.exec(s['lv'], st, env)['N'][1]
                o = cont(self.exec(s['b'], st, env))
                if 'N' in o and s.get('inc'):
                    g, s2, _ = o['N']
                    self.effect(s['inc'], s2, env)
                    o['N'] = (g, s2, None)
                return o
            return self.branch(c, st, body, lambda x: {'X': (TRUE, x, None)})
        return self.run_loop(once, st, s, env, k == 'Do')

    def run_loop(self, once, st, s, env=None, do=False):
        marks = (len(self.obl), len(self.unk), len(self.loops), len(self.undefs))
        pre = st.clone()
        roots0 = set(st.mem)
        r = self.unroll(once, st, do)
        if r is not None: return r
        del self.obl[marks[0]:]; del self.unk[marks[1]:]; del self.loops[marks[2]:]; del self.undefs[marks[3]:]
        # --- carried cells
        where = self.where(s)
        cells = []          # (root, path)
        lid = id(s)
        for rounds in range(40):
            st = pre.clone()
            mus = {}
            order = sorted(cells, key=lambda c: (str(c[0]), str(c[1])))
            for i, (root, path) in enumerate(order):
                init = leafget(pre.mem[root], path)
                mu = mk('mu', (lid, i, init.id), sort=init.sort if init.op != 'undef' else init.a[0])
                mus[(root, path)] = (mu, init)
                st.mem[root] = leafset(st.mem[root], path, mu)
            entry = dict(st.mem)
            nt = self.ntmp
            o = once(st)
            self.ntmp = nt
            new = set()
            n = o.get('N')
            if n is not None:
                for root in entry:
                    if root not in n[1].mem: continue
                    self.diff(entry[root], n[1].mem[root], root, (), new, s)
            new -= set(cells)
            if not new: break
            cells += list(new)
            del self.obl[marks[0]:]; del self.unk[marks[1]:]; del self.loops[marks[2]:]; del self.undefs[marks[3]:]
        else: raise Unmodelled('loop did not stabilise at ' + where)
        x = self.join(o.get('X'), o.get('B'))
        rr = o.get('R')
        n = o.get('N')
        done = FALSE
        if x: done = or_(done, x[0])
        if rr: done = or_(done, rr[0])
        if n is None: done = TRUE
        ml = []
        for (root, path), (mu, init) in sorted(mus.items(), key=lambda kv: kv[1][0].a[0][1]):
            nx = leafget(n[1].mem[root], path) if n is not None else mu
            ml.append((mu, init, nx))
        L = Loop(tuple(ml), exitcond(done, ml), where)
        single = frozenset(mu.id for (root, path), (mu, _) in mus.items() if path == () and root in self.vtypes and self.vtypes[root].s.split()[-1] == 'float')
        self.loops.append((L, where, self.cur.get('qn') if self.cur else None, st.pc, single))

        def fin(t):
            g, s2, v = t
            mem = {}
            for root, val in s2.mem.items():
                if root in roots0: mem[root] = after(L, val)
            out = State(mem, meet(s2.facts, pre.facts), pre.pc)
            if v is not None and isinstance(v, Node): v = after(L, v)
            elif v is not None: v = after_lv(L, v)
            return out, v
        out = {}
        if rr:
            gR = after(L, rr[0]) if x else TRUE
            s2, v = fin(rr)
            if gR is not TRUE: self.assume(s2, gR)
            out['R'] = (gR, s2, v)
        if x:
            s2, _ = fin(x)
            gX = not_(after(L, rr[0])) if rr else TRUE
            if gX is not TRUE: self.assume(s2, gX)
            out['N'] = (gX, s2, None)
        if not out: out = {}
        return out

    def unroll(self, once, st, do=False):
        cur = st.clone()
        acc = {}
        g0 = TRUE
        partial = False
        for it in range(72):
            if partial and it > 16: return None
            o = once(cur)
            x = o.get('X')
            if x is not None:
                if 'N' in o or not do and any(kk in o for kk in ('B', 'R')): return None
            for kk in ('X', 'B'):
                if kk in o:
                    g, s2, _ = o[kk]
                    acc['N'] = self.join(acc.get('N'), (and_(g0, g), s2, None))
                    partial |= kk == 'B'
            if 'R' in o:
                g, s2, v = o['R']
                acc['R'] = self.join(acc.get('R'), (and_(g0, g), s2, v)); partial = True
            if 'N' not in o: return acc
            g, cur, _ = o['N']
            g0 = and_(g0, g)
        return None

    def diff(self, a, b, root, path, out, s):
        if a is b: return
        if a.op in N.AGG and a.op == b.op and a.op != 'undef':
            o = a.op
            if o == 'rec' and a.a[0] == b.a[0]:
                for i, f in enumerate(a.a[1]): self.diff(a.a[2 + i], b.a[2 + i], root, path + (f,), out, s)
                return
            if o == 'arr' and len(a.a) == len(b.a):
                for i in range(len(a.a)): self.diff(a.a[i], b.a[i], root, path + (('#', i),), out, s)
                return
            if o in ('opt', 'var', 'uptr'):
                for i in range(len(a.a)):
                    if isinstance(a.a[i], Node): self.diff(a.a[i], b.a[i], root, path + (('#', i),), out, s)
                return
            if o == 'iter' and a.a[0] == b.a[0]:
                self.diff(a.a[1], b.a[1], root, path + (('#', 1),), out, s); return
            if o == 'ptr':
                if a.a[1] == b.a[1]: self.diff(a.a[0], b.a[0], root, path + (('#', 0),), out, s); return
                la, lb = a.a[1], b.a[1]
                if isinstance(la, LV) and isinstance(lb, LV) and la.root == lb.root and len(la.path) == len(lb.path):
                    ok = all(x == y or (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'i')
                             for x, y in zip(la.path, lb.path))
                    if ok:
                        self.diff(a.a[0], b.a[0], root, path + (('#', 0),), out, s)
                        for i, (x, y) in enumerate(zip(la.path, lb.path)):
                            if x != y: out.add((root, path + (('#p', i),)))
                        return
        if a.op in N.AGG and a.op != 'undef' or b.op in N.AGG and b.op != 'undef':
            raise Unmodelled('loop-carried %s at %s' % (a.op, self.where(s)))
        out.add((root, path))

    # ------------------------------------------------------------ expressions
    def cond(self, e, st, env):
        v = self.rval(e, st, env)
        if v.op == 'undef': self.undefs.append((self.where(e), 'branch')); return opq('undef', sort='b')
        if v.sort == 'i': return not_(eq(v, num(0, 'i')))
        if v.sort == 'ptr': return v.a[0] if v.op == 'ptr' else opq('ptr', sort='b')
        if v.sort != 'b': return opq('cond', v, sort='b')
        return self.simp(v, st.facts)

    def effect(self, e, st, env):
        if e['vc'] == 'r': self.rval(e, st, env)
        else: self.lval(e, st, env)

    def rval(self, e, st, env):
        if e['vc'] != 'r':
            v = self.load(st, self.lval(e, st, env), self.deref(e['t']))
            # read a value in the case at hand
            while self.cutload and isinstance(v, Node) and v.op == 'ite':
                c = self.simp(v.a[0], st.facts)
                if c is TRUE: v = v.a[1]
                elif c is FALSE: v = v.a[2]
                else: break
            return v
        v = self.rval0(e, st, env)
        if isinstance(v, Node) and v.sort in N.SCAL: self.prov.setdefault(v.id, (self.cur, e.get('ln')))
        return v

    def deref(self, T): return T.e if T.sort == 'ref' else T

    PURE = ('Lit', 'Bin', 'Un', 'Cast', 'Ref', 'Cond', 'Call')

    def rval0(self, e, st, env):
        k = e['k']
        T = e['t']
        if 'cv' in e and T.sort in N.SCAL and k in self.PURE: return const(e['cv'], T.sort)
        if k == 'Cast': return self.cast(e, st, env)
        if k == 'Bin': return self.binop(e, st, env)
        if k == 'Ctor': return self.ctor(e, st, env)
        if k == 'Init': return self.initlist(e, st, env)
        if k in ('Call', 'MCall'): return self.call_expr(e, st, env)
        if k == 'Un': return self.unop(e, st, env)
        if k == 'Cond':
            c = self.cond(e['c'], st, env)
            return self.pick(c, st, lambda s: self.rval(e['a'], s, env), lambda s: self.rval(e['b'], s, env))
        if k == 'Zero': return self.zero(T)
        if k == 'Str': return STR
        if k == 'Null': return ptr(FALSE, LV('?null'))
        if k == 'This': return ptr(TRUE, env['this'])
        if k == 'Lambda':
            caps = []
            for c in e['caps']:
                if c.get('this') == 'ptr': caps.append(('this', env['this'], True))
                elif c.get('this'): caps.append(('this', self.load(st, env['this']), False))
                elif c['ref']:
                    caps.append((c['d'], env.get(c['d']) or self.lval(c['init'], st, env), True))
                else: caps.append((c['d'], self.rval(c['init'], st, env), False))
            return mk('clo', e['cls'], e.get('call'), tuple(caps), sort='clo')
        if k == 'SIL':
            x = e['e']
            while x['k'] in ('Mat', 'Cast'): x = x['e']
            r = EMPTY
            for y in x.get('args', ()): r = push(r, self.rval(y, st, env))
            return r
        if k == 'Asg' or k == 'CAsg' or k == 'Comma': return self.load(st, self.lval(e, st, env), T)
        if k == 'FnRef': return mk('clo', '#fn', e['f']['key'], (), sort='clo')
        if k == 'ICall':
            f = self.rval(e['ce'], st, env)
            if f.op == 'clo' and f.a[0] == '#fn' and f.a[1] in self.P.funcs:
                fn_ = self.P.funcs[f.a[1]]
                return self.invoke(f.a[1], None, self.args(fn_['ps'], e['args'], st, env), st, e)
            return self.opaque('indirect call', e, T)
        if k == 'Lit': return opq('lit', sort=T.sort) if T.sort in N.SCAL else STR
        if k == 'New':
            raise Unmodelled('new')
        return self.opaque('expr ' + str(e.get('why', k)), e, T)

    def pick(self, c, st, f, g):
        """Conditional evaluation with state join; mutates st."""
        c = self.simp(c, st.facts)
        if c is TRUE: return f(st)
        if c is FALSE: return g(st)
        s1 = st.clone(); self.assume(s1, c)
        s2 = st.clone(); self.assume(s2, not_(c))
        a = f(s1); b = g(s2)
        m = self.merge(c, s1, s2, st.pc)
        st.mem = m.mem; st.facts = m.facts
        return self.itev(c, a, b)

    def lval(self, e, st, env):
        k = e['k']
        if e['vc'] == 'r':
            if k == 'Mat': return self.temp(st, self.rval(e['e'], st, env))
            return self.temp(st, self.rval(e, st, env))
        if k == 'Ref':
            if 'g' in e:
                r = self.glob(e['g'], st, e)
                return r if isinstance(r, LV) else LV(r)
            lv = env.get(e['d'])
            if lv is None:
                self.note('unbound ' + e['n'], e)
                return self.temp(st, self.opaque('unbound', e, self.deref(e['t'])))
            return lv
        if k == 'Mem':
            if e['arrow']:
                b = self.ptr_target(self.rval(e['b'], st, env), st, e)
            else: b = self.lval(e['b'], st, env)
            if e['ft'].sort == 'ref':
                raise Unmodelled('reference member')
            return b + e['f']
        if k == 'Mat':
            return self.temp(st, self.rval(e['e'], st, env))
        if k == 'Cast':
            ck = e['ck']
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast'):
                return self.lval(e['e'], st, env)
            return self.temp(st, self.cast(e, st, env))
        if k == 'Asg':
            r = self.rval(e['r'], st, env)
            l = self.lval(e['l'], st, env)
            self.write(st, l, r, e)
            return l
        if k == 'CAsg':
            r = self.rval(e['r'], st, env)
            l = self.lval(e['l'], st, env)
            cur = self.load(st, l, e['l']['t'])
            self.write(st, l, self.conv(self.arith(e['op'], cur, r, e.get('ct') or e['t'], st, e), e['l']['t'], st, e), e)
            return l
        if k == 'Un':
            op = e['op']
            if op in ('++', '--'):
                l = self.lval(e['e'], st, env)
                cur = self.load(st, l, e['t'])
                self.write(st, l, self.incr(cur, 1 if op == '++' else -1, e), e)
                return l
            if op == '*': return self.ptr_target(self.rval(e['e'], st, env), st, e)
            if op in ('__real', '__imag', '__extension__'): return self.lval(e['e'], st, env)
        if k == 'Comma':
            self.effect(e['l'], st, env)
            return self.lval(e['r'], st, env)
        if k == 'Cond':
            c = self.cond(e['c'], st, env)
            return self.pick(c, st, lambda s: self.lval(e['a'], s, env), lambda s: self.lval(e['b'], s, env))
        if k == 'Sub':
            b = self.rval(e['b'], st, env)
            i = self.rval(e['i'], st, env)
            p = self.padd(b, i)
            return self.ptr_target(p, st, e)
        if k in ('Call', 'MCall', 'ICall'):
            r = self.call_expr(e, st, env) if k != 'ICall' else self.rval0(e, st, env)
            if isinstance(r, (LV, LVite)): return r
            return self.temp(st, r)
        if k == 'Init' or k == 'Ctor' or k == 'Zero' or k == 'Lambda': return self.temp(st, self.rval0(e, st, env))
        if k == 'Str': return self.temp(st, STR)
        if k == 'FnRef': return self.temp(st, mk('clo', '#fn', e['f']['key'], (), sort='clo'))
        self.note('lvalue ' + str(e.get('why', k)), e)
        return self.temp(st, self.opaque('lvalue', e, self.deref(e['t'])))

    def write(self, st, lv, v, e):
        if isinstance(v, Node) and v.sort in N.SCAL: self.prov.setdefault(v.id, (self.cur, e.get('ln')))
        if isinstance(lv, LV) and isinstance(lv.root, tuple) and lv.root[0] == 'g':
            self.ghits.append((lv.root[1], self.where(e), True))
        self.store(st, lv, v)

    def padd(self, p, i):
        if p.op == 'ptr':
            lv = p.a[1]
            if isinstance(lv, LV):
                if lv.path and isinstance(lv.path[-1], tuple) and lv.path[-1][0] == 'i':
                    q = lv.path[-1]
                    return ptr(p.a[0], LV(lv.root, lv.path[:-1] + (('i', add(q[1], i)) + q[2:],)))
                if isnum(i) and i.a[0] == 0: return p
        if p.op == 'iter': return iter_(p.a[0], add(p.a[1], i))
        raise Unmodelled('pointer arithmetic')

    def incr(self, v, d, e):
        if v.op in ('ptr', 'iter'): return self.padd(v, num(d, 'i'))
        return add(v, num(d, v.sort))

    def ptr_target(self, p, st, e):
        if p.op == 'ptr':
            self.oblige('null-deref', p.a[0], st, e)
            return p.a[1]
        if p.op == 'iter': return p.a[0] + ('i', p.a[1], self.elem_of(p, e))
        raise Unmodelled('pointer target at ' + self.where(e))

    def elem_of(self, p, e): return e['t']

    def unop(self, e, st, env):
        op = e['op']
        if op == '!':
            return not_(self.tobool(self.rval(e['e'], st, env), e))
        if op == '-': return neg(self.rval(e['e'], st, env))
        if op == '+': return self.rval(e['e'], st, env)
        if op == '&':
            return ptr(TRUE, self.lval(e['e'], st, env))
        if op in ('++', '--'):
            l = self.lval(e['e'], st, env)
            cur = self.load(st, l, e['t'])
            self.write(st, l, self.incr(cur, 1 if op == '++' else -1, e), e)
            return cur if e['post'] else self.load(st, l, e['t'])
        if op == '*': return self.load(st, self.ptr_target(self.rval(e['e'], st, env), st, e), e['t'])
        if op == '~': return fn('~', self.rval(e['e'], st, env), sort='i')
        if op == '__extension__': return self.rval(e['e'], st, env)
        return self.opaque('unary ' + op, e, e['t'])

    def tobool(self, v, e=None):
        if v.sort == 'b': return v
        if v.op == 'ptr': return v.a[0]
        if v.sort in ('i', 'f'): return not_(eq(v, num(0, v.sort)))
        if v.op == 'undef':
            self.undefs.append((self.where(e), 'bool')); return opq('undef', sort='b')
        return opq('bool', v, sort='b')

    def binop(self, e, st, env):
        op = e['op']
        if op in ('&&', '||'):
            a = self.tobool(self.rval(e['l'], st, env), e)
            if op == '&&':
                return self.pick(a, st, lambda s: self.tobool(self.rval(e['r'], s, env), e), lambda s: FALSE)
            return self.pick(a, st, lambda s: TRUE, lambda s: self.tobool(self.rval(e['r'], s, env), e))
        l = self.rval(e['l'], st, env)
        r = self.rval(e['r'], st, env)
        if op in ('<', '>', '<=', '>=', '==', '!='): return self.compare(op, l, r, e)
        return self.arith(op, l, r, e['t'], st, e)

    def compare(self, op, l, r, e):
        if l.op == 'undef' or r.op == 'undef':
            self.undefs.append((self.where(e), 'compare')); return opq('undef', sort='b')
        if l.op == 'ptr' or r.op == 'ptr':
            if r.op == 'ptr' and l.op == 'ptr':
                if r.a[0] is FALSE: q = not_(l.a[0])
                elif l.a[0] is FALSE: q = not_(r.a[0])
                elif l.a[0] is TRUE and r.a[0] is TRUE and isinstance(l.a[1], LV) and isinstance(r.a[1], LV):
                    if l.a[1] == r.a[1]: q = TRUE
                    else:
                        la, lb = l.a[1], r.a[1]
                        if la.root == lb.root and len(la.path) == len(lb.path) and la.path and la.path[:-1] == lb.path[:-1] \
                                and isinstance(la.path[-1], tuple) and la.path[-1][0] == 'i':
                            return self.compare(op, la.path[-1][1], lb.path[-1][1], e)
                        q = FALSE
                else: q = opq('ptr-eq', sort='b')
                return q if op == '==' else not_(q)
            return opq('ptr-cmp', sort='b')
        if l.op == 'iter' and r.op == 'iter':
            if l.a[0] != r.a[0]: return opq('iter-cmp', sort='b')
            l, r = l.a[1], r.a[1]
        if l.sort == 'b' and r.sort != 'b': l = ite(l, num(1, 'i'), num(0, 'i'))
        if r.sort == 'b' and l.sort != 'b': r = ite(r, num(1, 'i'), num(0, 'i'))
        if l.sort not in N.SCAL or r.sort not in N.SCAL: return opq('cmp', l, r, sort='b')
        if op == '<': return lt(l, r)
        if op == '>': return lt(r, l)
        if op == '<=': return le(l, r)
        if op == '>=': return le(r, l)
        if op == '==': return eq(l, r)
        return not_(eq(l, r))

    def arith(self, op, a, b, T, st, e):
        if a.op in ('ptr', 'iter') and b.sort == 'i':
            return self.padd(a, b if op == '+' else neg(b))
        if b.op in ('ptr', 'iter') and a.sort == 'i' and op == '+': return self.padd(b, a)
        if a.op == 'ptr' and b.op == 'ptr' and op == '-':
            la, lb = a.a[1], b.a[1]
            if isinstance(la, LV) and isinstance(lb, LV) and la.path and lb.path and la.path[:-1] == lb.path[:-1]:
                return sub(la.path[-1][1], lb.path[-1][1])
        if a.op == 'iter' and b.op == 'iter' and op == '-' and a.a[0] == b.a[0]: return sub(a.a[1], b.a[1])
        if a.op == 'undef' or b.op == 'undef':
            self.undefs.append((self.where(e), 'arithmetic')); return opq('undef', sort=T.sort)
        if a.sort == 'b': a = ite(a, num(1, 'i'), num(0, 'i'))
        if b.sort == 'b': b = ite(b, num(1, 'i'), num(0, 'i'))
        isf = T.sort == 'f'
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if isf: return div(a, b)
            self.oblige('int-div', not_(eq(b, num(0, 'i'))), st, e)
            if isnum(a) and isnum(b) and b.a[0] != 0:
                q = abs(int(a.a[0])) // abs(int(b.a[0]))
                return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q, 'i')
            return fn('idiv', a, b, sort='i')
        if op == '%':
            self.oblige('int-div', not_(eq(b, num(0, 'i'))), st, e)
            return fn('imod', a, b, sort='i')
        if op in ('&', '|', '^') and T.sort == 'b' : pass
        if op in ('&', '|') and a.op == 'ite' and b.op == 'ite' and a.a[1:] == b.a[1:] == (num(1, 'i'), num(0, 'i')):
            c = (and_ if op == '&' else or_)(a.a[0], b.a[0])
            return ite(c, num(1, 'i'), num(0, 'i'))
        return fn('op' + op, a, b, sort=T.sort if T.sort in N.SCAL else 'i')

    def conv(self, v, T, st, e):
        """Scalar conversion to type T."""
        s = T.sort
        if v.op == 'undef' or v.sort == s: return v
        if s == 'b': return self.tobool(v, e)
        if v.sort == 'b' and s in ('i', 'f'): return ite(v, num(1, s), num(0, s))
        if v.sort == 'i' and s == 'f': return self.i2f(v)
        if v.sort == 'f' and s == 'i': return self.f2i(v, T, st, e)
        return v

    def i2f(self, v):
        if isnum(v): return num(v.a[0])
        if v.op == 'ite': return ite(v.a[0], self.i2f(v.a[1]), self.i2f(v.a[2]))
        return mk('i2f', v, sort='f')

    def f2i(self, v, T, st, e):
        if isnum(v): return num(int(v.a[0]), 'i')
        self.obl.append(('float-to-int', self.where(e), ('f2i', v, T), st.pc))
        if v.op == 'i2f': return v.a[0]
        return self.f2i0(v)

    def f2i0(self, v):
        if isnum(v): return num(int(v.a[0]), 'i')
        if v.op == 'i2f': return v.a[0]
        if v.op == 'ite': return ite(v.a[0], self.f2i0(v.a[1]), self.f2i0(v.a[2]))
        return fn('f2i', v, sort='i')

    def cast(self, e, st, env):
        ck = e['ck']
        T = e['t']
        x = e['e']
        if ck in ('LValueToRValue', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'BaseToDerived',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'Dependent'):
            return self.rval(x, st, env)
        if ck == 'ToVoid':
            self.effect(x, st, env); return UNIT
        if ck == 'ArrayToPointerDecay':
            if x['t'].sort == 'str': return STR
            return ptr(TRUE, self.lval(x, st, env) + ('i', num(0, 'i')))
        if ck == 'NullToPointer': return ptr(FALSE, LV('?null'))
        v = self.rval(x, st, env)
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean',
                  'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            if v.op == 'undef': return v
            return self.conv(v, T, st, e)
        return self.opaque('cast ' + ck, e, T)

    def initlist(self, e, st, env):
        T = e['t']
        s = T.sort
        if s in N.SCAL: return self.rval(e['args'][0], st, env) if e['args'] else self.zero(T)
        if s == 'arr':
            # std::array{ {…} } has one inner array
            a = e['args']
            if T.k == 'rec' and len(a) == 1 and a[0]['t'].sort == 'arr' and a[0]['k'] == 'Init' and a[0]['t'].k == 'arr':
                return self.initlist(a[0], st, env)
            vals = [self.rval(x, st, env) for x in a]
            while len(vals) < T.len:
                vals.append(self.rval(e['fill'], st, env) if e.get('fill') else self.zero(T.e))
            return arr(vals)
        if s == 'rec':
            n, fs = self.recfields(T)
            given = {}
            for nm, x in zip(e['names'], e['args']):
                if nm == '#base':
                    b = self.rval(x, st, env)
                    for f, v in zip(b.a[1], b.a[2:]): given[f] = v
                else: given[nm] = self.rval(x, st, env)
            return rec(n, [f for f, _ in fs], [given[f] if f in given else self.undef(t) for f, t in fs])
        if s == 'unit': return UNIT
        if len(e['args']) == 1: return self.rval(e['args'][0], st, env)
        return self.opaque('init', e, T)

    # ------------------------------------------------------------ calls
    def args(self, ps, args, st, env):
        out = []
        for i, a in enumerate(args):
            t = ps[i]['t'] if i < len(ps) and isinstance(ps[i], dict) else (ps[i] if i < len(ps) else None)
            if t is not None and t.sort == 'ref': out.append(self.lval(a, st, env))
            elif t is None: out.append(self.lval(a, st, env))
            else: out.append(self.rval(a, st, env))
        return out

    def ctor(self, e, st, env):
        f = e['f']
        T = e['t']
        args = e['args']
        if f.get('copy') and len(args) >= 1 and (not f.get('own') or f.get('defaulted') or f.get('implicit') or 'body' not in self.P.funcs.get(f['key'], {})):
            a = args[0]
            return self.lib.copied(self.rval(a, st, env), T)
        if f.get('own'):
            return self.construct(T, f, [lambda t, a=a: (self.lval(a, st, env) if t.sort == 'ref' else self.rval(a, st, env)) for a in args], st, e)
        if T.sort == 'rec' and T.rec and T.rec.get('own') and not args: return self.construct(T, f, [], st, e)
        r = self.lib.construct(e, f, T, st, env)
        if r is None: return self.opaque('ctor ' + f['qn'], e, T)
        return r

    def default(self, T, st, e, zi=False):
        """Value of a default-initialised object of type T."""
        s = T.sort
        if s == 'rec' and T.rec and T.rec.get('own'):
            for m in T.rec.get('methods', ()):
                fn_ = self.P.funcs.get(m['key'])
                if fn_ and fn_.get('ctor') and not fn_['ps'] and 'body' in fn_ and not fn_.get('defaulted'):
                    return self.construct(T, {'key': m['key'], 'qn': fn_['qn']}, [], st, e)
            return self.construct(T, {'key': None, 'qn': T.n, 'implicit': True}, [], st, {'ln': None, 'zi': zi})
        if s in ('opt', 'var', 'uptr', 'seq', 'str', 'unit'): return self.lib.default(T, st, e)
        if s == 'rec': return self.zero(T)
        if s == 'arr': return arr([self.default(T.e, st, e, zi) for _ in range(int(T.len))])
        return self.zero(T) if zi else self.undef(T)

    def construct(self, T, f, argf, st, e):
        fn_ = self.P.funcs.get(f['key']) if f.get('key') else None
        name = T.n
        lv = self.temp(st, self.zero(T) if e.get('zi') else self.undef(T))
        self.construct_into(lv, name, f, fn_, argf, st, e)
        return st.mem[lv.root]

    def construct_into(self, lv, name, f, fn_, argf, st, e, outer=None):
        r = self.P.recs[name]
        vals = []
        if fn_ is not None:
            for i, p in enumerate(fn_['ps']):
                if i < len(argf): vals.append(argf[i](p['t']))
        inits = {}
        base_inits = {}
        if fn_ is not None and fn_.get('inits'):
            for it in fn_['inits']:
                if 'f' in it: inits[it['f']] = it['e']
                elif 'base' in it: base_inits[it['base'].n if hasattr(it['base'], 'n') else it['base']] = it['e']
                elif 'deleg' in it: inits['#deleg'] = it['deleg'] if isinstance(it['deleg'], dict) else it['e']
        env = {}
        saved = (self.cur, self.fid)
        if fn_ is not None:
            self.cur = fn_
            self.funcs_seen.add(fn_['key'])
        self.frame += 1
        self.fid = self.frame
        env['this'] = lv
        env['#ret'] = VOID
        if fn_ is not None:
            for p, v in zip(fn_['ps'], vals): self.bind(env, p, v, st)
        if '#deleg' in inits:
            v = self.rval(inits['#deleg'], st, env)
            self.store(st, lv, v)
        else:
            for b in r.get('bases', ()):
                if b.n not in self.P.recs or self.P.recs[b.n].get('fields') is None: continue
                be = base_inits.get(b.n)
                if be is not None and be.get('k') == 'Ctor':
                    bf = be['f']
                    self.construct_into(lv, b.n, bf, self.P.funcs.get(bf['key']),
                                        [lambda t, a=a: (self.lval(a, st, env) if t.sort == 'ref' else self.rval(a, st, env)) for a in be['args']], st, be)
                else: self.construct_into(lv, b.n, {'key': None}, None, [], st, e)
            for fd in r.get('fields', ()):
                x = inits.get(fd['n'])
                if x is not None: v = self.rval(x, st, env)
                elif fd.get('init') is not None: v = self.rval(fd['init'], st, env)
                elif fd['t'].sort == 'ref': continue
                else:
                    v = self.default(fd['t'], st, e, bool(e.get('zi')))
                self.store(st, lv + fd['n'], v)
        if fn_ is not None and fn_.get('body'):
            o = self.exec(fn_['body'], st, env)
            s2 = self.join(o.get('R'), o.get('N'))[1]
            st.mem = s2.mem; st.facts = s2.facts
        self.cur, self.fid = saved

    def bind(self, env, p, v, st):
        if p['t'].sort == 'ref':
            if isinstance(v, Node): v = self.temp(st, v)
            env[p['d']] = v
        else:
            if isinstance(v, (LV, LVite)): v = self.load(st, v, p['t'])
            r = ('v', self.fid, p['d'], p['n'])
            st.mem[r] = v
            env[p['d']] = LV(r)

    def call_expr(self, e, st, env):
        f = e['f']
        self.calls_seen += 1
        key = f['key']
        fd = self.P.funcs.get(key)
        if e['k'] == 'MCall' and not f.get('st'):
            o = e['o']
            if f.get('own') or f.get('cls_own'):
                if e.get('arrow'): this = self.ptr_target(self.rval(o, st, env), st, e)
                else: this = self.lval(o, st, env)
                if f.get('implicit') or f.get('defaulted') or (fd is None or 'body' not in fd) and f['n'] == 'operator=':
                    if f['n'] == 'operator=':
                        v = self.rval(e['args'][0], st, env)
                        self.write(st, this, v, e)
                        return this
                    if f['n'] == 'operator==' and fd is None:
                        return self.lib.deep_eq(self.load(st, this), self.rval(e['args'][0], st, env))
                # lambda
                if fd is not None and fd.get('cls') in self.P.recs and self.P.recs[fd['cls']].get('lambda') and f['n'] == 'operator()':
                    clo = self.load(st, this)
                    return self.call_closure(clo, fd, e['args'], st, env, e)
                ps = fd['ps'] if fd else [{'t': t} for t in f['ps']]
                av = self.args(ps, e['args'], st, env)
                return self.method(f, this, av, st, e, qual=e.get('qual'))
            return self.lib.mcall(e, f, st, env)
        if f.get('own'):
            if fd is not None and 'body' in fd:
                return self.invoke(key, None, self.args(fd['ps'], e['args'], st, env), st, e)
            if f.get('defaulted') and f['n'] == 'operator==':
                a = [self.rval(x, st, env) for x in e['args']]
                return self.lib.deep_eq(a[0], a[1])
            return self.opaque('no body ' + f['qn'], e, e['t'])
        return self.lib.call(e, f, st, env)

    def call_closure(self, clo, fd, argx, st, env, e):
        return self.apply_closure(clo, fd, self.args(fd['ps'], argx, st, env), st, e)

    def apply_closure(self, clo, fd, av, st, e):
        if clo.op != 'clo' or clo.a[0] is None: return self.opaque('closure', e, fd['ret'])
        caps = clo.a[2]
        return self.invoke(fd['key'], None, av, st, e, caps=caps)

    def method(self, f, this, av, st, e, qual=False):
        key = f['key']
        if f.get('virt') and not qual:
            if isinstance(this, LV) and this.path and this.path[-1] == ('u*',):
                base = LV(this.root, this.path[:-1])
                u = self.load(st, base)
                if u.op != 'uptr': raise Unmodelled('virtual receiver')
                cs, tag = u.a[0], u.a[1]

                def go(i, s):
                    if i == len(cs) - 1: return self.invoke(self.resolve(key, cs[i]), base + ('u', cs[i]), av, s, e)
                    return self.pick(eq(tag, num(i + 1, 'i')), s,
                                     lambda s1: self.invoke(self.resolve(key, cs[i]), base + ('u', cs[i]), av, s1, e),
                                     lambda s2: go(i + 1, s2))
                if not cs: raise Unmodelled('no concrete class')
                return go(0, st)
            v = self.load(st, this)
            if v.op == 'rec': key = self.resolve(key, v.a[0])
        elif isinstance(this, LV) and this.path and this.path[-1] == ('u*',):
            u = self.load(st, LV(this.root, this.path[:-1]))
            if len(u.a[0]) == 1: this = LV(this.root, this.path[:-1]) + ('u', u.a[0][0])
        return self.invoke(key, this, av, st, e)

    def resolve(self, key, cls):
        """Final overrider of method `key` for dynamic class `cls`."""
        ov = self.P.overr.get(key, {})
        c = [cls]
        while c:
            x = c.pop(0)
            if x in ov: return ov[x]
            c += [b.n for b in self.P.recs[x].get('bases', ())]
        return key

    def invoke(self, key, this, av, st, e, caps=None):
        fd = self.P.funcs.get(key)
        if fd is None or 'body' not in fd or fd['body'] is None:
            if fd is not None and fd.get('defaulted') and fd['n'] == 'operator==':
                vs = [self.load(st, a) if not isinstance(a, Node) else a for a in av]
                if this is not None: vs = [self.load(st, this)] + vs
                return self.lib.deep_eq(vs[0], vs[1])
            return self.opaque('no body ' + key, e, fd['ret'] if fd else e['t'])
        if self.stack.count(key) > 3 or len(self.stack) > 60: raise Unmodelled('recursion ' + fd['qn'])
        self.funcs_seen.add(key)
        saved = (self.cur, self.fid)
        self.stack.append(key)
        self.cur = fd
        self.frame += 1
        self.fid = self.frame
        try:
            env = {'this': this, '#ret': fd['ret']}
            for c in caps or ():
                d, v, byref = c
                if d == 'this': env['this'] = v if byref else self.temp(st, v)
                elif byref: env[d] = v
                else: env[d] = self.temp(st, v)
            for p, v in zip(fd['ps'], av): self.bind(env, p, v, st)
            g0 = st.pc
            o = self.exec(fd['body'], st, env)
            r = o.get('R')
            n = o.get('N')
            if n is not None:
                n = (n[0], n[1], UNIT if fd['ret'].sort == 'unit' else (r[2] if r and isinstance(r[2], Node) else UNIT))
            if r is None and n is None:
                # every path diverges
                raise Unmodelled('no exit from ' + fd['qn'])
            if r is not None and n is not None and fd['ret'].sort != 'unit':
                # flowing off the end is undefined; value irrelevant
                x = (or_(r[0], n[0]), self.merge(r[0], r[1], n[1], g0), r[2])
            else: x = self.join(r, n)
            s2 = x[1]
            mine = self.fid
            keep = set()
            if isinstance(x[2], (LV, LVite)): keep = set(lv_roots(x[2]))
            st.mem = {k: v for k, v in s2.mem.items() if not (isinstance(k, tuple) and k[0] in ('v', 'tmp') and k[1] == mine and k not in keep)}
            st.facts = s2.facts
            st.pc = g0
            return x[2]
        finally:
            self.stack.pop()
            self.cur, self.fid = saved

    # ------------------------------------------------------------ globals
    def glob(self, key, st, e, env=None):
        g = self.P.globals.get(key)
        root = ('g', key)
        if key in self.hid:
            # state that outlives the call: its value comes with the state
            self.ghits.append((key, self.where(e), False))
            if env is not None and g.get('init') is not None:
                done = ('g', '#' + key)
                st.mem[root] = ite(st.mem[done], st.mem[root], self.rval(g['init'], st, dict(env, **{'#ret': g['t']})))
                st.mem[done] = TRUE
            return root
        if g is None:
            self.note('global ' + key, e)
            if root not in st.mem: st.mem[root] = self.opaque('global ' + key, e, self.deref(e['t']))
            return root
        const_ = g.get('const') or g.get('constexpr')
        if not const_: self.ghits.append((key, self.where(e), False))
        if root in st.mem: return root
        T = g['t']
        if const_ and 'cv' in g and T.sort in N.SCAL: st.mem[root] = const(g['cv'], T.sort)
        elif const_ and g.get('init') is not None:
            if env is not None:
                st.mem[root] = self.rval(g['init'], st, dict(env, **{'#ret': T}))
                return root
            saved = (self.cur, self.fid)
            self.fid = 0
            st.mem[root] = self.rval(g['init'], st, {'#ret': T})
            self.cur, self.fid = saved
        elif T.sort == 'ref': st.mem[root] = opq('global-ref', sort='opaque')
        else: st.mem[root] = self.symbolic(T, 'global:' + key)
        return root


def nonneg(n):
    if isnum(n): return n.a[0] >= 0
    if n.op == 'size': return True
    if n.op == 'add': return all(nonneg(x) for x in n.a)
    if n.op == 'ite': return nonneg(n.a[1]) and nonneg(n.a[2])
    return False


def exitcond(done, ml):
    """A counter that starts at or below a loop-invariant bound and advances by
    one leaves at `i == n` exactly when it leaves at `i >= n`."""
    if done.op == 'or': return or_(exitcond(done.a[0], ml), exitcond(done.a[1], ml))
    if done.op != 'eq': return done
    for i, n in (done.a, done.a[::-1]):
        for mu, init, nx in ml:
            if i is mu and isnum(init) and init.a[0] == 0 and nx is add(mu, num(1, 'i')) and nonneg(n) and not (N.free_mus(n) & {m for m, _, _ in ml}):
                return not_(lt(i, n))
    return done


def meet(f1, f2):
    f = {k: v for k, v in f1.items() if f2.get(k) == v}
    if 'nand' in f1 and 'nand' in f2 and 'nand' not in f:
        k = tuple(x for x in f1['nand'] if x in f2['nand'])
        if k: f['nand'] = k
    return f


class _T:
    pass


INT = _T(); INT.sort = 'i'; INT.k = 'int'; INT.s = 'int'
VOID = _T(); VOID.sort = 'unit'; VOID.k = 'void'; VOID.s = 'void'


def pstr(p):
    if isinstance(p, str): return '.' + p
    if p[0] == 'i': return '[%s]' % show(p[1])
    if p[0] == 'o': return '.*'
    if p[0] == 'oh': return '?'
    if p[0] == 'v': return '.alt%d' % p[1]
    if p[0] == 'vt': return '.index'
    if p[0] == 'u': return '->' + p[1].split('::')[-1]
    if p[0] == 'ut': return '.class'
    if p[0] == 'pn': return '.nonnull'
    return '.' + str(p)


def leafget(v, path):
    for p in path:
        if isinstance(p, str): v = rec_get(v, p)
        elif p[0] == '#': v = v.a[p[1]]
        elif p[0] == '#p': v = v.a[1].path[p[1]][1]
    return v


def leafset(v, path, x):
    if not path: return x
    p = path[0]
    if isinstance(p, str): return rec_set(v, p, leafset(rec_get(v, p), path[1:], x))
    a = list(v.a)
    if p[0] == '#p':
        lv = a[1]
        q = lv.path[p[1]]
        a[1] = LV(lv.root, lv.path[:p[1]] + (('i', x) + q[2:],) + lv.path[p[1] + 1:])
    else: a[p[1]] = leafset(a[p[1]], path[1:], x)
    return mk(v.op, *a, sort=v.sort)


def lv_roots(lv):
    if isinstance(lv, LVite): return lv_roots(lv.a) + lv_roots(lv.b)
    return [lv.root]


def after_lv(L, lv):
    if isinstance(lv, LVite): return LVite(after(L, lv.c), after_lv(L, lv.a), after_lv(L, lv.b))
    return LV(lv.root, tuple((('i', after(L, p[1])) + p[2:]) if isinstance(p, tuple) and p[0] == 'i' else p for p in lv.path))
