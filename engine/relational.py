"""Properties that relate several calls or several modelers.

Each is decided on the value graphs of the public operations over symbolic
modelers (see hist.py): which part of the modeler an operation changes, which
part of it anything observable depends on, and whether two compositions of
operations leave equal values in every observable place."""
import os, re, sys, time
import equal
from node import *
import node as N
from hist import *
from interp import Unmodelled, State as N_State
from prog import AnalysisError


DEBUG = os.environ.get('VP_DEBUG')


def remap(v, f, path=()):
    """Rebuilds an aggregate with its leaves replaced (leaves as in equal)."""
    o = v.op
    if o == 'rec': return rec(v.a[0], v.a[1], [remap(x, f, path + (n,)) for n, x in zip(v.a[1], v.a[2:])])
    if o == 'arr': return arr([remap(x, f, path + (('i', num(i, 'i')),)) for i, x in enumerate(v.a)])
    if o == 'opt': return opt(remap(v.a[0], f, path + (('oh',),)), remap(v.a[1], f, path + (('o',),)))
    if o == 'var': return var(remap(v.a[0], f, path + (('vt',),)), [remap(x, f, path + (('v', i),)) for i, x in enumerate(v.a[1:])])
    if o == 'uptr': return uptr(v.a[0], remap(v.a[1], f, path + (('ut',),)), [remap(x, f, path + (('u', c),)) for c, x in zip(v.a[0], v.a[2:])])
    if v.sort in ('b', 'i', 'f', 'seq') or o == 'undef' or o in ('ite', 'opq') and v.sort not in ('unit', 'str'):
        return f(equal.pkey(path), v)
    return v


def guard(k, d):
    import pairs
    return pairs.guard(k, d, d)


class Rel(Hist):
    def __init__(self, P, R, thorough=False):
        Hist.__init__(self, P)
        self.R = R; self.thorough = thorough
        self.m = self.modeler('m')
        self.ml = dict(leaf_list(self.m))
        self.byid = {x.id: k for k, x in self.ml.items()}
        self.inp = self.input('in')
        self.out0 = self.results('out')
        self.par = self.params('par')
        n = {'uptr': [], 'var': []}

        def tags(v):
            if v.op in n: n[v.op].append(len(v.a[0]) if v.op == 'uptr' else len(v.a) - 2)
            for x in v.a:
                if isinstance(x, Node): tags(x)
        tags(self.m); tags(self.par)
        self.ntags = max(n['uptr'], default=0) if len(set(n['uptr'])) <= 1 else None
        self.nalts = max(n['var'], default=0) if len(set(n['var'])) <= 1 else -1
        if self.ntags is None: self.ntags = -1
        self._ops = {}
        self._live = None
        self._reached = None
        equal.Soft.BCAP = 60000
        self.compared = 0; self.cases = 0
        self.how = {}
        self.ev = rec_get(self.inp, 'event_type')

    def tag(self, name):
        """Highest value of the tag a symbol stands for."""
        if name.endswith('event_type'): return -1
        if name.endswith('.class') or name.endswith('.ut'): return self.ntags
        if name.endswith('.index') or name.endswith('.vt'): return self.nalts
        return None

    # event kinds by the names of the enumerators, in declaration order
    def isev(self, k): return eq(self.ev, num({'down': 0, 'move': 1, 'up': 2}[k], 'i'))

    def op(self, name):
        """The operation on an arbitrary modeler (Update with any event)."""
        if name not in self._ops:
            if name in ('down', 'move', 'up'):
                self._ops[name] = self.do('update', self.m, self.inp, self.out0, self.isev(name))
            else:
                self._ops[name] = self.do(name, self.m, self.inp if name == 'update' else self.par if name == 'reset1' else None, self.out0)
        return self._ops[name]

    def arg(self, op): return self.inp if op == 'update' else self.par if op == 'reset1' else None

    def leafdeps(self, nodes): return {self.byid[i] for i in deps(nodes) if i in self.byid}

    def live(self):
        """Leaves of the modeler that some sequence of calls can observe."""
        if self._live is None:
            d = {k: set() for k in self.ml}      # leaf -> leaves that depend on it
            L = set()
            for o in OPS:
                s = self.op(o)
                roots = [s.code] if s.code is not None else []
                if o in ('update', 'predict'): roots.append(s.out)
                L |= self.leafdeps(roots)
                for k, x in leaf_list(s.m):
                    if x is self.ml.get(k): continue
                    for j in self.leafdeps([x]): d[j].add(k)
            while True:
                n = {j for j in d if j not in L and d[j] & L}
                if not n: break
                L |= n
            self._live = L
        return self._live

    def changed(self, op):
        """Leaves an operation may change."""
        return {k for k, x in leaf_list(self.op(op).m) if x is not self.ml[k]}

    def saved(self):
        """Leaves that hold the saved point."""
        return self.changed('save') & self.live()

    def config(self):
        """Leaves that only Reset(params) sets; everything else at most copies
        them (the predictor's parameters travel with its copies)."""
        C = set(self.ml)
        ops = [o for o in OPS if o != 'reset1']
        new = {o: dict(leaf_list(self.op(o).m)) for o in ops}

        def transport(k, x, C):
            seen = {}

            def go(n, uts):
                if n.id in seen: return seen[n.id]
                if n.op == 'ite': r = go(n.a[1], uts or self.onlytags(n.a[0], C)) and go(n.a[2], uts or self.onlytags(n.a[0], C))
                elif n.id in self.byid: r = self.byid[n.id] in C
                elif n.op == 'n' and k.endswith('.ut'): r = uts
                else: r = False
                seen[n.id] = r
                return r
            return go(x, False)
        while True:
            bad = {k for k in C if any(new[o][k] is not self.ml[k] and not transport(k, new[o][k], C) for o in ops)}
            if not bad: break
            C -= bad
        return C

    def onlytags(self, c, C):
        d = deps([c])
        return bool(d) and all(i in self.byid and self.byid[i].endswith('.ut') and self.byid[i] in C for i in d)

    # ------------------------------------------------------------ comparing
    def decider(self, ieee=(), tlimit=None):
        return equal.Decider(ieee=ieee, tags=self.tag, K=3 if self.thorough else 2, budget=60000 if self.thorough else 20000,
                             tlimit=tlimit or (200 if self.thorough else 60))

    def equalities(self, todo, pre, ieee=(), quick=False, tlimit=None):
        """todo: (key, expected, found, guard) -> {key: verdict}"""
        D = self.decider(ieee, tlimit)
        r = {}
        rest = []
        for t in todo:
            if t[1] is t[2]: r[t[0]] = ('eq', 'identical')
            else: rest.append(t)
        if rest:
            # where it does not matter, put the expected value: often settled by
            # the decision-diagram fingerprint without any case split
            s = equal.Soft(D, equal.Ctx())
            left = []
            for t in rest:
                y = ite(and_(pre, t[3]), t[2], t[1])
                try:
                    if y is t[1] or s.closed(y) == s.closed(t[1]): r[t[0]] = ('eq', 'fingerprint'); continue
                except equal.SoftFail: pass
                left.append(t)
            rest = left
        if rest and quick: r.update({t[0]: ('unknown', 'not settled by fingerprint') for t in rest})
        elif rest: r.update(equal.check_many(D, rest, pre))
        if not quick: self.compared += len(todo)
        self.cases += D.cases
        return r

    def settle(self, group, confirm=None, ieee=()):
        """group(cut) -> obligations (name, todo, pre, message), where cut may
        drop impossible cases from a modeler between two operations.  Every
        obligation is tried as it is, then cut down, then by case analysis.
        confirm(group names and leaf keys) -> those that differ on a state some
        history of calls reaches."""
        plain = lambda m, g: m
        obs = group(plain)
        res = [self.equalities(o[1], o[2], ieee, quick=True) for o in obs]
        self.compared += sum(len(o[1]) for o in obs)
        if any(v[0] != 'eq' for r in res for v in r.values()):
            obs2 = group(self.given)
            for i, o in enumerate(obs2):
                left = [t for t in o[1] if res[i][t[0]][0] != 'eq']
                if left: res[i].update(self.equalities(left, o[2], ieee, quick=True))
                left = [t for t in left if res[i][t[0]][0] != 'eq']
                if left:
                    res[i].update(self.equalities(left, o[2], ieee))
                    obs[i] = (o[0], [t for t in obs[i][1] if t[0] not in {x[0] for x in left}] + left) + tuple(o[2:])
        for o, r in zip(obs, res):
            bad = {k for k, v in r.items() if v[0] == 'diff'}
            if bad and confirm:
                real = confirm(o[0], bad)
                for k in bad - real: r[k] = ('unknown', 'differs only on states that the histories tried do not reach')
            self.report(o, r)

    def require(self, name, todo, pre, message, ieee=()):
        return self.report((name, todo, pre, message), self.equalities(todo, pre, ieee))

    def report(self, o, r):
        from check import blame
        name, todo, pre, message = o
        how = {}
        clean = True
        t = {x[0]: x for x in todo}
        for k, v in r.items():
            if v[0] == 'eq': how[v[1]] = how.get(v[1], 0) + 1; continue
            clean = False
            key = '%s:%s' % (name, k)
            if v[0] == 'diff':
                info = v[1]
                self.R.bad(key, message, blame(self.I, t[k][2], t[k][1]) or blame(self.I, t[k][1], t[k][2]),
                           case=[str(c)[:200] for c in info['case']][-40:], expected=str(info['reference'])[:1500], found=str(info['actual'])[:1500])
            else: self.R.undecided(key, str(v[1])[:200])
        for k, v in how.items(): self.how[k] = self.how.get(k, 0) + v
        if clean: self.R.ok(name, ', '.join('%s %d' % kv for kv in sorted(how.items())))
        return clean

    def sides(self, ref, imp, only, what=('code', 'out', 'm')):
        """Same status, same results, same observable modeler."""
        todo = []
        if 'code' in what and ref.code is not None: todo.append(('status', ref.code, imp.code, TRUE))
        if 'out' in what and ref.out is not None: todo.append(('results', ref.out, imp.out, TRUE))
        if 'm' in what: todo += self.states(ref.m, imp.m, only)
        return todo

    # ------------------------------------------------------------ reachable states
    def reached(self, upto=4):
        """Modelers after new(), Reset(par), Down, Move, Up: (modeler, condition)."""
        if self._reached is None:
            out = []
            m, g = self.fresh(), TRUE
            s = self.do('reset1', m, self.par)
            g = self.ok(s); m = self.given(s.m, g)
            out.append((m, g))
            for i, k in enumerate((0, 1, 2)):
                x = self.input('past%d' % i)
                e = eq(rec_get(x, 'event_type'), num(k, 'i'))
                s = self.do('update', m, x, EMPTY, e)
                g = and_(g, and_(e, self.ok(s))); m = self.given(s.m, g)
                out.append((m, g))
            self._reached = out
        return self._reached[:upto]

    def bases(self, fresh=True):
        if fresh: yield self.fresh(), TRUE
        for b in self.reached(): yield b
        for m, g in self.reached(): yield self.do('save', m).m, g  # with something to restore

    def differing(self, group, names, bases):
        """Which leaves of an obligation are not shown equal on some base."""
        out = set()
        for b in bases:
            for o in group(self.given, *b):
                if o[0] != names[0]: continue
                todo = [t for t in o[1] if t[0] in names[1]]
                r = self.equalities(todo, o[2], quick=True)
                out |= {k for k, v in r.items() if v[0] != 'eq'}
            if out >= names[1]: break
        return out

    def states(self, ref, imp, only):
        a, b = dict(leaf_list(ref)), dict(leaf_list(imp))
        return [(k, a[k], b[k], guard(k, a)) for k in a if k in only]

    def ok(self, s): return eq(s.code, num(0, 'i')) if s.code is not None else TRUE

    def finish(self):
        R = self.R
        R.funcs.update(k for k in self.I.funcs_seen)
        c = R.cov
        c['operations_composed'] = c.get('operations_composed', 0) + len(self._ops)
        c['values_compared'] = c.get('values_compared', 0) + self.compared
        c['cases_distinguished'] = c.get('cases_distinguished', 0) + self.cases
        c['modeler_leaves'] = len(self.ml)
        c['observable_leaves'] = len(self.live())
        h = c.setdefault('decided_by', {})
        for k, v in self.how.items(): h[k] = h.get(k, 0) + v
        if self.I.unk: c['unmodelled'] = [str(u)[:160] for u in self.I.unk[:10]]

    def atoms(self, c, out):
        if c.op in ('and', 'or', 'not') or c.op == 'ite' and c.sort == 'b':
            for x in c.a: self.atoms(x, out)
        elif c.op in ('lt', 'le', 'eq', 'sym'): out[c.id] = c
        return out

    def settled(self, pre):
        """The comparisons in a condition that it settles one way."""
        so = equal.Soft(self.decider(), equal.Ctx())
        no = so.closed(FALSE)
        out = TRUE
        for a in self.atoms(pre, {}).values():
            for x in (a, not_(a)):
                try:
                    if so.closed(and_(pre, not_(x))) == no: out = and_(out, x); break
                except equal.SoftFail: pass
        return out

    # parameters with ordinary values, for histories that show a difference exists
    USUAL = {'spring_mass_constant': 11 / 32400, 'drag_constant': 72, 'min_output_rate': 180, 'end_of_stroke_stopping_distance': 1 / 1024, 'end_of_stroke_max_iterations': 20,
             'max_outputs_per_call': 1000, 'stylus_state_modeler_params.max_input_samples': 20, 'stylus_state_modeler_params.min_input_samples': 5}

    def simple(self, path, kind=0, angle=True, on=None, keep=None):
        """The modeler after a short history with the optional features off but
        one, and without upsampling by angle: (modeler, condition)."""
        def usual(k, x):
            for n, v in self.USUAL.items():
                if keep is not None and k.endswith(n) and x not in keep: return num(v, x.sort)
            return x
        par = remap(self.params('par'), lambda k, x: (TRUE if k == on else FALSE) if x.sort == 'b' else num(kind, 'i') if k == '.prediction_params.vt' else
                    num(-1, 'f') if angle and k.endswith('.max_estimated_angle_to_traverse_per_input') else usual(k, x))
        s = self.do('reset1', self.fresh(), par)
        g = self.ok(s); m = self.given(s.m, g)
        for i, k in enumerate(path):
            y = self.input('past%d' % i)
            e = eq(rec_get(y, 'event_type'), num(('down', 'move', 'up').index(k), 'i'))
            s = self.do('update', m, y, EMPTY, e)
            g = and_(g, and_(e, self.ok(s))); m = self.given(s.m, g)
        return m, g

    # ------------------------------------------------------------ building states
    def given(self, m, g):
        """m with the cases that cannot occur under g removed."""
        if g is TRUE: return m
        so = equal.Soft(equal.Decider(tags=self.tag), equal.Ctx())
        memo = {}

        def zero(c):
            try: return so.closed(c) == 0 if not isinstance(so.closed(c), equal.A) else False
            except equal.SoftFail: return False

        def cut(n):
            r = memo.get(n.id)
            if r is None:
                r = n
                if n.op == 'ite':
                    if zero(and_(g, n.a[0])): r = cut(n.a[2])
                    elif zero(and_(g, not_(n.a[0]))): r = cut(n.a[1])
                    else:
                        a, b = cut(n.a[1]), cut(n.a[2])
                        if a is not n.a[1] or b is not n.a[2]: r = ite(n.a[0], a, b)
                memo[n.id] = r
            return r
        return remap(m, lambda k, x: cut(x))

    def havoc(self, m, keep, tag):
        """m with every leaf outside `keep` replaced by an arbitrary value."""
        def f(k, x):
            if k in keep: return x
            y = self.ml[k]
            return sseq(tag + k, y.a[1]) if y.sort == 'seq' else sym(tag + k, y.sort)
        return remap(m, f)

    def with_consts(self, m, C): return remap(m, lambda k, x: C.get(k, x))


# ------------------------------------------------------------------ C01
def rejected(P, R, thorough):
    X = Rel(P, R, thorough)
    L = X.live()

    def group(cut, base=X.m, g=TRUE):
        obs = []
        for o, what in (('update', 'a rejected input changes the modeler or the results'), ('reset1', 'a rejected reset changes the modeler'),
                        ('reset0', 'a failed reset changes the modeler'), ('predict', 'a failed prediction changes the modeler')):
            s = X.op(o) if base is X.m else X.do(o, base, X.params('again') if o == 'reset1' else X.arg(o), X.out0)
            todo = X.states(base, s.m, L)
            if o == 'update': todo.append(('results', X.out0, s.out, TRUE))
            obs.append((o, todo, and_(g, not_(X.ok(s))), what))
        return obs
    X.settle(group, lambda n, ks: X.differing(group, (n, ks), X.bases()))
    X.finish()


# ------------------------------------------------------------------ C05
def predicting(P, R, thorough):
    X = Rel(P, R, thorough)

    def group(cut, base=X.m, g=TRUE):
        s = X.do('predict', base, None, X.out0)
        # what it returns does not depend on what the caller passes
        s2 = X.do('predict', s.m, None, X.results('other'))
        return [('predict', X.states(base, s.m, X.live()), g, 'a prediction changes something that a later call observes'),
                ('again', [('status', s.code, s2.code, TRUE), ('results', s.out, s2.out, TRUE)], g, 'repeating a prediction gives another one')]
    X.settle(group, lambda n, ks: X.differing(group, (n, ks), X.bases(False)))
    X.finish()


# ------------------------------------------------------------------ C04
def replaced(P, R, thorough):
    X = Rel(P, R, thorough)

    def group(cut, base=X.m, g=TRUE):
        s = X.do('predict', base, None, X.out0)
        s2 = X.do('predict', base, None, EMPTY)
        return [('replace', [('status', s2.code, s.code, TRUE), ('results', s2.out, s.out, TRUE)], g, 'the prediction depends on what the vector held before'),
                ('empty', [('size', num(0, 'i'), size(s.out), TRUE)], and_(g, not_(X.ok(s))), 'a failed prediction leaves results in the vector')]
    X.settle(group, lambda n, ks: X.differing(group, (n, ks), [(X.fresh(), TRUE)] + X.reached()))

    # available exactly during a stroke: after parameters that name a predictor
    # and an accepted down event, until the up event or a reset
    p = rec_get(X.par, 'prediction_params')
    on = [eq(p.a[0], num(i, 'i')) for i in range(len(p.a) - 1)]
    names = [t.n.split('::')[-1] for t in X.I.alts(dict(X.I.recfields(X.Tpar)[1])['prediction_params'])]
    enabled = FALSE
    for c, n in zip(on, names):
        if 'Disabled' not in n: enabled = or_(enabled, c)

    def avail(cut):
        obs = []
        f = X.do('predict', X.fresh(), None, X.out0)
        obs.append(('new', [('status', num(9, 'i'), f.code, TRUE)], TRUE, 'a prediction needs parameters'))
        r = X.op('reset1')
        g = X.ok(r)
        m = X.given(r.m, g)
        q = X.do('predict', m, None, X.out0)
        obs.append(('idle', [('status', num(9, 'i'), q.code, TRUE)], g, 'a prediction needs a stroke in progress'))
        for i, k in enumerate(('down', 'move', 'up')):
            x = X.input('past%d' % i)
            e = eq(rec_get(x, 'event_type'), num(i, 'i'))
            s = X.do('update', m, x, EMPTY, e)
            g = and_(g, and_(e, X.ok(s)))
            m = X.given(s.m, g)
            q = X.do('predict', m, None, X.out0)
            want = num(9, 'i') if k == 'up' else ite(enabled, num(0, 'i'), num(9, 'i'))
            obs.append((k, [('status', want, q.code, TRUE)], g, 'a prediction must be available exactly while a stroke is in progress and a predictor is chosen'))
            if k == 'move':
                z = X.do('reset0', m)
                q = X.do('predict', z.m, None, X.out0)
                obs.append(('aborted', [('status', num(9, 'i'), q.code, TRUE)], and_(g, X.ok(z)), 'a prediction needs a stroke in progress'))
        return obs
    X.settle(avail)
    X.finish()


# ------------------------------------------------------------------ C03 C06
def independent(X, S):
    """Updates and predictions, and what they leave outside the saved point,
    are functions of what is outside the saved point."""
    ok = True
    for o in ('update', 'predict', 'reset0'):
        s = X.op(o)
        roots = [s.code] + ([s.out] if o != 'reset0' else [])
        names = ['status', 'results'][:len(roots)]
        m = dict(leaf_list(s.m))
        for k in sorted(X.live() - S): names.append(k); roots.append(m[k])
        bad = [n for n, x in zip(names, roots) if x is not X.ml.get(n) and X.leafdeps([x]) & S]
        if bad:
            ok = False
            X.R.undecided('%s/saved' % o, 'depends on the saved point: ' + ', '.join(bad[:5]))
    if ok: X.R.ok('independence', 'statuses, results and working state read nothing of the saved point')
    return ok


def afterwards(X, tag, s, t, pre, work, L, inp=None):
    """Obligations that modeler s behaves as the idle modeler t from now on and
    has nothing to restore."""
    a = X.do('update', s, X.inp, X.out0)
    b = X.do('update', t, X.inp, X.out0)
    out = [('%s/first' % tag, X.sides(b, a, (), ('code', 'out')), pre, 'something from before the reset influences the first call after it'),
           ('%s/stroke' % tag, X.sides(b, a, work, ('m',)), and_(pre, and_(X.ok(a), X.ok(b))), 'something from before the reset survives the first down event'),
           ('%s/move' % tag, [('refused', FALSE, X.ok(a), TRUE)], and_(pre, not_(X.isev('down'))), 'a stroke is still in progress after a reset')]
    q = X.do('predict', s, None, X.out0)
    out.append(('%s/predict' % tag, [('refused', FALSE, X.ok(q), TRUE)], pre, 'a prediction succeeds right after a reset'))
    r = X.do('restore', s)
    out.append(('%s/restore' % tag, X.states(s, r.m, L), pre, 'a saved state can be restored after a reset'))
    return out


def fresh_after_reset(P, R, thorough):
    X = Rel(P, R, thorough)
    L, S = X.live(), X.saved()
    work = L - S
    C = X.config() & L

    def withparams(cut, base=X.m, g=TRUE):
        # as on a new modeler given the same parameters
        par = X.par if base is X.m else X.params('again')
        s = X.do('reset1', base, par)
        f = X.do('reset1', X.fresh(), par)
        pre = and_(g, and_(X.ok(s), X.ok(f)))
        obs = [('status', [('status', f.code, s.code, TRUE)], g, 'whether a reset succeeds depends on the state before')]
        # a reset always makes the modeler idle, so the cut is part of the argument
        obs += afterwards(X, 'params', X.given(s.m, pre), X.given(f.m, pre), pre, work, L)
        g0 = X.do('reset0', s.m)
        obs.append(('given', [('status', num(0, 'i'), g0.code, TRUE)], pre, 'a reset without parameters must succeed once some were given'))
        return obs
    X.settle(withparams, lambda n, ks: X.differing(withparams, (n, ks), X.bases(False)))

    def none(cut):
        f0 = X.do('reset0', X.fresh())
        return [('none', [('status', num(9, 'i'), f0.code, TRUE)], TRUE, 'a reset without parameters must fail when none were ever given')]
    X.settle(none)
    d = X.leafdeps([X.op('reset0').code]) - X.config()
    if d: R.undecided('bare/status', 'depends on ' + ', '.join(sorted(d)[:4]))
    else: R.ok('bare/status', 'decided by what only a reset with parameters sets')

    def bare(cut, base=X.m, g=TRUE, other=None):
        # parameters and predictor stay, all else as on any other modeler with them
        s = X.do('reset0', base)
        y = X.havoc(X.m, C - S, 'y') if other is None else other
        t = X.do('reset0', y)
        pre = and_(g, X.ok(s))
        obs = [('keep', X.states(base, s.m, C), g, 'a reset without parameters changes the parameters or the predictor')]
        return obs + afterwards(X, 'bare', cut(s.m, pre), cut(t.m, pre), pre, work, L)
    X.settle(bare, lambda n, ks: X.differing(bare, (n, ks), ((m, g, X.reached()[0][0]) for m, g in X.bases(False))))
    X.finish()


def strokes(P, R, thorough):
    X = Rel(P, R, thorough)
    L, S = X.live(), X.saved()
    work = L - S
    C = (X.config() & L) - S
    R.cov['configuration_leaves'] = len(C)
    independent(X, S)
    end = X.input('end')
    isup = eq(rec_get(end, 'event_type'), num(2, 'i'))

    def group(cut, base=X.m, g=TRUE, idle=None):
        obs = []
        if idle is None:
            other = X.do('reset0', X.havoc(X.m, C, 'y'))
            idle, gi = other.m, X.ok(other)
        else: gi = TRUE
        for tag in ('completed', 'aborted'):
            if tag == 'completed':
                s = X.do('update', base, end, X.results('old'), isup)
                pre = and_(and_(g, gi), and_(isup, X.ok(s)))
            else:
                s = X.do('reset0', base)
                pre = and_(and_(g, gi), X.ok(s))
            a = X.do('update', cut(s.m, pre), X.inp, X.out0)
            b = X.do('update', cut(idle, pre), X.inp, X.out0)
            pre = and_(pre, X.isev('down'))
            obs.append(('%s/down' % tag, X.sides(b, a, (), ('code', 'out')), pre, 'the first result of a stroke depends on the stroke before'))
            obs.append(('%s/stroke' % tag, X.sides(b, a, work, ('m',)), and_(pre, and_(X.ok(a), X.ok(b))), 'the modeler of a new stroke depends on the stroke before'))
        return obs
    X.settle(group, lambda n, ks: X.differing(group, (n, ks), [(m, g, X.reached()[0][0]) for m, g in X.reached()[1:3]]))
    X.finish()


# ------------------------------------------------------------------ C09
CLOCKS = re.compile(r'(std::chrono::|(^|::)(clock|time|gettimeofday|clock_gettime|timespec_get|rand|random|drand48|lrand48|getenv|secure_getenv|getpid|gettid|pthread_self)$|'
                    r'std::random_device|this_thread|absl::(Now|GetCurrentTimeNanos|BitGen|InsecureBitGen|Uniform))')


def site(w):
    m = re.match(r'(.*):(\d+) \((.*)\)$', w)
    from check import rel
    return [{'file': rel(m.group(1)), 'line': int(m.group(2)), 'function': m.group(3)}] if m else [{'file': w}]


def isolated(P, R, thorough):
    """Nothing but the modeler and the arguments decides what a call does."""
    X = Rel(P, R, thorough)
    I = X.I
    I.hid = X.outliving()
    R.cov['variables_outliving_a_call'] = sorted(k.split('/')[-1] for k in I.hid)
    X.globals = X.hide('h1:')
    L = X.live()

    def twist(n, mp): return subst(n, mp, {})

    def roots(s):
        r = [('status', s.code)] if s.code is not None else []
        if s.out is not None: r.append(('results', s.out))
        return r

    # 1. the outside world
    calls = {w: q for q, w in I.extcalls.items()}
    for o in OPS:
        s = X.op(o)
        m = dict(leaf_list(s.m))
        bad = {}
        for n, x in roots(s) + [(k, m[k]) for k in sorted(L)]:
            for y in reach([x]).values():
                if y.op == 'opq': bad.setdefault(str(y.a[0])[:120], n)
        for w, n in sorted(bad.items()):
            q = next((c for c in sorted(I.extcalls, key=lambda c: not w.endswith(c)) if CLOCKS.search(c) and not re.search(r'duration|time_point', c)), None)
            if not CLOCKS.search(w): q = None
            if q: R.bad('%s:%s' % (o, n), 'what the call does depends on ' + q, site(I.extcalls[q]))
            else: R.undecided('%s:%s' % (o, n), 'depends on something unmodelled: ' + w)
        if not bad: R.ok('%s/outside' % o, 'computed from the modeler and the arguments alone')

    # 2. variables that outlive the call
    if I.hid:
        other = X.hide('h2:')
        mp = {}
        for r, v in X.globals.items():
            for (k, x), (_, y) in zip(leaf_list(v) if v.sort not in SCAL else [('', v)], leaf_list(other[r]) if other[r].sort not in SCAL else [('', other[r])]):
                mp[x] = y
        where = sorted({w for _, w, _ in I.ghits})
        cand = {}
        for o in OPS:
            s = X.op(o)
            m, m2 = dict(leaf_list(s.m)), None
            todo = [(n, x, twist(x, mp), TRUE) for n, x in roots(s)]
            todo += [(k, m[k], twist(m[k], mp), guard(k, m)) for k in sorted(L)]
            r = X.equalities(todo, TRUE, quick=True)
            b = {k for k, v in r.items() if v[0] != 'eq'}
            if b: cand[o] = b
            else: R.ok('%s/variables' % o, 'does not depend on any variable that outlives the call')
        if cand:
            # one modeler used in a new process, and after another one was used
            X.globals = X.hide(None)
            start = X.globals

            def life(tag, hid, path, choice, on):
                X.globals = hid
                # one history is enough: at most one optional feature on
                par = remap(X.params(tag + 'par'), lambda k, x: (TRUE if k == on else FALSE) if x.sort == 'b' else choice if k.endswith('prediction_params.vt') else x)
                out = []
                m, g = X.fresh(), TRUE
                for i, k in enumerate(('reset',) + path):
                    if k == 'reset': s = X.do('reset1', m, par)
                    elif k == 'predict': s = X.do('predict', m, None, X.out0)
                    else:
                        x = X.input('%spast%d' % (tag, i))
                        e = eq(rec_get(x, 'event_type'), num(('down', 'move', 'up').index(k), 'i'))
                        s = X.do('update', m, x, EMPTY, e)
                        g = and_(g, e)
                    g = and_(g, X.ok(s)); m = X.given(s.m, g)
                    X.globals = {r: s.st.mem.get(r, v) for r, v in X.globals.items()}
                    out.append((k, s, g))
                return out, X.globals
            seen = False
            t0 = time.time()
            flags = [None] + [k for k, x in leaf_list(X.par) if x.sort == 'b' and x.op == 'sym']
            for path, choice, on in [(p, num(c, 'i'), o) for p in (('down', 'move'), ('down', 'up'), ('down', 'move', 'predict'), ('down', 'move', 'up')) for o in flags for c in range(len(X.I.alts(dict(X.I.recfields(X.Tpar)[1])['prediction_params'])))]:
                if seen or time.time() - t0 > 200: break
                first, after1 = life('a', start, path, choice, on)
                alone, _ = life('b', start, path, choice, on)
                both, _ = life('b', after1, path, choice, on)
                for (n, s, g), (_, t, g2) in zip(alone, both):
                    todo = [(k, x, y, TRUE) for (k, x), (_, y) in zip(roots(s), roots(t))] + X.states(s.m, t.m, L)
                    w = and_(first[-1][2], and_(g, g2))
                    r = X.equalities(todo, w, quick=True)
                    left = sorted((t for t in todo if r[t[0]][0] != 'eq'), key=lambda t: len(reach([t[1], t[2]])))
                    for t in left[:1] + left[-1:]:
                        if not any(v[0] == 'diff' for v in r.values()): r.update(X.equalities([t], w, tlimit=20))
                    bad = sorted(k for k, v in r.items() if v[0] == 'diff')
                    if DEBUG: print(path, choice, on, n, {k: (v[0], str(v[1])[:1500]) for k, v in r.items() if v[0] != 'eq'})
                    if bad:
                        seen = True
                        R.bad('%s:%s' % (n, bad[0]), 'using one modeler changes what another one does, through %s' % ', '.join(sorted(k.split('::')[-1] for k in I.hid)),
                              [x for w in where for x in site(w)], case=[str(c)[:200] for c in r[bad[0]][1]['case']][-40:])
            if not seen:
                for o, b in cand.items(): R.undecided(o, 'may depend on a variable that outlives the call: ' + ', '.join(sorted(b)[:3]))
    else: R.ok('variables', 'the library reads and writes no variable that outlives a call')

    # 3. values nobody set: a new modeler and local variables
    one, two = {}, {}

    def name(k, x):
        if x.op == 'undef' and len(x.a) == 1:
            s = X.ml[k].sort
            y = sym('un1:' + k, s)
            two[y] = sym('un2:' + k, s)
            return y
        return x
    f = remap(X.fresh(), name)
    R.cov['unset_in_a_new_modeler'] = len(two)
    X.globals = X.hide('h1:')

    def local(n):
        """The second copy: unset values differ from the first one's."""
        mp = dict(two)
        for y in reach([n]).values():
            if y.op == 'undef' and len(y.a) == 1 and y.a[0] in SCAL: mp[y] = sym('un2:local', y.a[0])
            if y.op == 'opq' and y.a[0] == 'undef': mp[y] = sym('un2:read', y.sort)
        return twist(n, mp)

    def first(n):
        mp = {}
        for y in reach([n]).values():
            if y.op == 'undef' and len(y.a) == 1 and y.a[0] in SCAL: mp[y] = sym('un1:local', y.a[0])
            if y.op == 'opq' and y.a[0] == 'undef': mp[y] = sym('un1:read', y.sort)
        return twist(n, mp) if mp else n

    steps = [0]

    def look(tag, s, g, full=True):
        todo = []
        for k, x in roots(s):
            a, b = first(x), local(x)
            todo.append((k, a, b, TRUE))
        steps[0] += 1
        g = first(g)
        r = X.equalities(todo, g, quick=True)
        left = [t for t in todo if r[t[0]][0] != 'eq']
        if left: r.update(X.equalities(left, g, tlimit=30))
        X.report((tag, todo, g, 'a value that was never set decides what a call does'), r)

    def follow(m, g, path, tag):
        for i, k in enumerate(path):
            if k in ('down', 'move', 'up'):
                x = X.input('%s%d' % (tag, i))
                e = eq(rec_get(x, 'event_type'), num(('down', 'move', 'up').index(k), 'i'))
                s = X.do('update', m, x, EMPTY, e)
                g = and_(g, e)
            else: s = X.do(k, m, X.par if k == 'reset1' else None, X.out0)
            look('%s.%d.%s' % (tag, i, k), s, g)
            if k != 'predict': g = and_(g, X.ok(s))
            m = X.given(s.m, g)
        return m, g
    for k in OPS:
        if k != 'reset1': look('new.' + k, X.do(k, f, X.inp if k == 'update' else None, X.out0), TRUE)
    m, g = follow(f, TRUE, ('reset1', 'restore', 'predict', 'down', 'predict', 'restore', 'save', 'move', 'restore', 'move'), 'first')
    follow(m, g, ('up', 'restore', 'reset0'), 'end')
    if thorough: follow(m, g, ('predict', 'move', 'predict', 'up'), 'more')
    # unset local variables, in every state
    for o in OPS:
        s = X.op(o)
        m = dict(leaf_list(s.m))
        look('any.' + o, s, TRUE)
        todo = [(k, first(m[k]), local(m[k]), guard(k, m)) for k in sorted(L)]
        todo = [t for t in todo if t[1] is not t[2]]
        if todo: X.report((o + '/state', todo, TRUE, 'a value that was never set is kept'), X.equalities(todo, TRUE, tlimit=30))
    R.cov['calls_followed'] = steps[0]
    X.finish()


# ------------------------------------------------------------------ C07 C08
def held(X, m1, ops, pre, start):
    """Which leaves keep the value they have in m1 through every operation in
    ops, in any order and number; everything else may become anything."""
    H = set(start)
    rounds = 0
    while True:
        rounds += 1
        y = X.havoc(m1, H, 'h%d' % rounds)
        l1 = dict(leaf_list(m1))
        bad = set()
        for o, p in ops:
            s = X.do(o, y, X.arg(o), X.out0, p)
            n = dict(leaf_list(s.m))
            todo = [(k, l1[k], n[k], TRUE) for k in H if n[k] is not l1[k]]
            if todo:
                r = X.equalities(todo, and_(pre, p), quick=True)
                bad |= {k for k in r if r[k][0] != 'eq'}
        if not bad: return H, y
        H -= bad


def walk(X, m, g, steps, tag):
    """Follows a sequence of accepted calls from m."""
    for i, o in enumerate(steps):
        if o in ('down', 'move', 'up'):
            x = X.input('%s%d' % (tag, i))
            e = eq(rec_get(x, 'event_type'), num(('down', 'move', 'up').index(o), 'i'))
            s = X.do('update', m, x, EMPTY, e)
            g = and_(g, and_(e, X.ok(s)))
        else: s = X.do(o, m, X.par if o == 'reset1' else None, EMPTY)
        m = X.given(s.m, g)
    return m, g


def restoring(P, R, thorough):
    X = Rel(P, R, thorough)
    L, S = X.live(), X.saved()
    mv = not_(X.isev('down'))
    start = [k for k in X.ml if k in L]
    any_ = [('update', TRUE), ('predict', TRUE), ('restore', TRUE)]

    # a point saved at any time, then the rest of the stroke
    def stroke(cut):
        m1 = X.op('save').m
        H, y = held(X, m1, [('update', mv), ('predict', TRUE), ('restore', TRUE)], TRUE, start)
        R.cov.setdefault('held_leaves', {})['stroke'] = len(H)
        m3 = X.do('restore', y).m
        return [('stroke', X.states(m1, m3, L), TRUE, 'a restore does not bring this back to its value at the save')]

    def confirm(n, ks):
        out = set()
        for base, g in X.reached()[1:3]:
            m1 = X.do('save', base).m
            for steps in (['move'], ['move', 'move'], ['up'], ['predict'], ['restore', 'move'], ['move', 'up']):
                m, g2 = walk(X, m1, g, steps, 'w')
                m3 = X.do('restore', m).m
                r = X.equalities([t for t in X.states(m1, m3, L) if t[0] in ks], g2, quick=True)
                out |= {k for k, v in r.items() if v[0] != 'eq'}
                if out >= ks: return out
        return out
    X.settle(stroke, confirm)

    # no stroke in progress at the save: whatever the next down event
    # overwrites need not be restored
    def compare(tag, m1, m3, pre):
        a, b = X.do('update', m3, X.inp, X.out0), X.do('update', m1, X.inp, X.out0)
        p, q = X.do('predict', m3, None, X.out0), X.do('predict', m1, None, X.out0)
        m4 = X.do('restore', m3).m
        return [('%s/first' % tag, X.sides(b, a, (), ('code', 'out')), pre, 'the first call after a restore differs from the first call after the save'),
                ('%s/down' % tag, X.sides(b, a, L - S, ('m',)), and_(pre, and_(X.ok(a), X.ok(b))), 'the stroke after a restore differs from the stroke after the save'),
                ('%s/predict' % tag, X.sides(q, p, (), ('code', 'out')), pre, 'a prediction after a restore differs from one after the save'),
                ('%s/again' % tag, X.states(m3, m4, L), pre, 'restoring again does not return to the same point')]
    end = X.input('end')
    isup = eq(rec_get(end, 'event_type'), num(2, 'i'))

    def idle(tag):
        def group(cut):
            if tag == 'before': s, pre = X.op('reset0'), X.ok(X.op('reset0'))
            else:
                s = X.do('update', X.m, end, X.results('old'), isup)
                pre = and_(isup, X.ok(s))
            m1 = X.do('save', cut(s.m, pre)).m
            H, y = held(X, m1, any_, pre, start)
            R.cov.setdefault('held_leaves', {})[tag] = len(H)
            return compare(tag, m1, X.do('restore', y).m, pre)

        def conf(n, ks):
            out = set()
            base, g = X.reached()[0 if tag == 'before' else 3]
            m1 = X.do('save', base).m
            for steps in (['down'], ['down', 'move'], ['down', 'up'], ['restore', 'down']):
                m, g2 = walk(X, m1, g, steps, 'w')
                for o in compare(tag, m1, X.do('restore', m).m, g2):
                    if o[0] != n: continue
                    r = X.equalities([t for t in o[1] if t[0] in ks], o[2], quick=True)
                    out |= {k for k, v in r.items() if v[0] != 'eq'}
            return out
        X.settle(group, conf)
    idle('before')
    idle('between')
    X.finish()


def saving(P, R, thorough):
    X = Rel(P, R, thorough)
    L, S = X.live(), X.saved()
    independent(X, S)
    ops = ('update', 'predict', 'restore')

    def moved(n, ks, starts):
        # does a restore change anything after these calls?
        out = set()
        for base, g, steps in starts:
            m, g2 = walk(X, base, g, steps, 'w')
            r = X.equalities([t for t in X.states(m, X.do('restore', m).m, L) if t[0] in ks], g2, quick=True)
            out |= {k for k, v in r.items() if v[0] != 'eq'}
        return out
    later = ([], ['down'], ['down', 'move'], ['down', 'up'])

    # no save since the reset
    def unsaved(tag, m, pre, confirm):
        def group(cut):
            C = invariant(X, cut(m, pre), pre, ops)
            R.cov.setdefault('constant_leaves', {})[tag] = sorted(C)
            y = X.with_consts(X.m, C)
            return [('%s/restore' % tag, X.states(y, X.do('restore', y).m, L), TRUE, 'a restore changes the modeler although nothing was saved since the reset')]
        X.settle(group, confirm)
    unsaved('new', X.fresh(), TRUE, lambda n, ks: moved(n, ks, [(X.fresh(), TRUE, [])]))
    for tag, o in (('params', 'reset1'), ('bare', 'reset0')):
        def confirm(n, ks, o=o):
            m, g = X.reached()[2]
            m = X.do('save', m).m
            z = X.do(o, m, X.arg(o))
            g = and_(g, X.ok(z))
            return moved(n, ks, [(X.given(z.m, g), g, st) for st in later])
        unsaved(tag, X.op(o).m, X.ok(X.op(o)), confirm)

    # saved during an earlier stroke
    first, nxt = X.input('first'), X.input('next')
    for tag, k in (('down', 0), ('move', 1)):
        def group(cut, tag=tag, k=k):
            e = eq(rec_get(first, 'event_type'), num(k, 'i'))
            s0 = X.do('update', X.m, first, X.results('old'), e)
            pre = and_(e, X.ok(s0))
            m1 = X.do('save', X.given(s0.m, pre)).m
            H, y = held(X, m1, [('update', not_(X.isev('down'))), ('predict', TRUE), ('restore', TRUE)], pre, [k2 for k2 in X.ml if k2 in L])
            dn = eq(rec_get(nxt, 'event_type'), num(0, 'i'))
            s1 = X.do('update', y, nxt, X.results('new'), dn)
            pre = and_(pre, and_(dn, X.ok(s1)))
            C = invariant(X, X.given(s1.m, pre), pre, ops)
            z = X.with_consts(X.m, C)
            return [('earlier/%s' % tag, X.states(z, X.do('restore', z).m, L), TRUE, 'a point saved during an earlier stroke is restored into the next one')]

        def confirm(n, ks, k=k):
            m, g = X.reached()[1 + k]
            m = X.do('save', m).m
            return moved(n, ks, [(m, g, ['up', 'down']), (m, g, ['up', 'down', 'move'])])
        X.settle(group, confirm)

    # saving is not observable except by restoring
    def group(cut, base=X.m, g=TRUE):
        s = X.do('save', base)
        return [('save', X.states(base, s.m, L - S), g, 'saving changes the state results are computed from')]
    X.settle(group, lambda n, ks: X.differing(group, (n, ks), X.reached()))
    X.finish()


def invariant(X, start, pre, ops):
    """Constant leaves of `start` (under pre) that every operation in ops keeps."""
    st = dict(leaf_list(start))
    C = {}
    for k in sorted(X.live()):
        x = st[k]
        if x.sort not in ('b', 'i'): continue
        cs = {TRUE, FALSE} if x.sort == 'b' and x is not X.ml[k] else constants(x)
        if not cs or len(cs) > 4: continue
        r = X.equalities([('%s' % c, c, x, TRUE) for c in sorted(cs, key=lambda n: n.id)], pre, quick=True)
        for c in cs:
            if r['%s' % c][0] == 'eq': C[k] = c
    while True:
        y = X.with_consts(X.m, C)
        bad = set()
        for o in ops:
            s = X.do(o, y, X.arg(o), X.out0)
            n = dict(leaf_list(s.m))
            todo = [(k, C[k], n[k], TRUE) for k in C if n[k] is not C[k]]
            if todo:
                r = X.equalities(todo, TRUE, quick=True)
                bad |= {k for k in r if r[k][0] != 'eq'}
        if not bad: return C
        for k in bad: del C[k]


def constants(v, out=None):
    out = set() if out is None else out
    if v.op == 'ite': constants(v.a[1], out); constants(v.a[2], out)
    elif v.op in ('n', 'b'): out.add(v)
    return out


# ------------------------------------------------------------------ C11
FEATURES = (
    ('wobble smoothing', 'is_enabled', False, ('timeout', 'speed_floor', 'speed_ceiling')),
    ('loop mitigation', 'is_enabled', False, ('speed_lower_bound', 'speed_upper_bound', 'interpolation_strength_at_speed_lower_bound',
                                              'interpolation_strength_at_speed_upper_bound', 'min_speed_sampling_window', 'min_discrete_speed_samples')),
    ('fixed-size history', 'use_stroke_normal_projection', True, ('max_input_samples',)),
    ('stroke-normal projection', 'use_stroke_normal_projection', False, ('min_input_samples', 'min_sample_duration')),
)


def feature_leaves(keys):
    """Leaves that hold a parameter of a feature, with the leaf that switches
    it and the value of the switch for which the feature is off."""
    out = {}
    for k in keys:
        b = k[:-len('.value_')] if k.endswith('.value_') else k
        pre, _, f = b.rpartition('.')
        for name, flag, off, fields in FEATURES:
            if f in fields and pre + '.' + flag in keys: out[k] = (name, pre + '.' + flag, off)
    return out


def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y: break
        n += 1
    return n


def disabled(P, R, thorough):
    X = Rel(P, R, thorough)
    X.I.cutload = True
    L = X.live()
    par = dict(leaf_list(X.par))
    DP = feature_leaves(par)
    D = feature_leaves(X.ml)
    D = {k: v for k, v in D.items()}
    for name, _, _, fields in FEATURES:
        n = len([1 for v in DP.values() if v[0] == name])
        if n != len(fields): raise AnalysisError('parameters of %s not found' % name)
    R.cov['parameter_leaves_varied'] = len(DP)

    def off(vals, d):
        c = vals[d[1]]
        return c if d[2] else not_(c)

    def other(v, D, tag):
        vals = dict(leaf_list(v))
        return remap(v, lambda k, x: ite(off(vals, D[k]), sseq(tag + k, x.a[1]) if x.sort == 'seq' else sym(tag + k, x.sort), x) if k in D else x)

    par2 = other(X.par, DP, 'other:par')

    def follow(m, m2, par2, o, D, base, g=TRUE):
        s = X.op(o) if base else X.do(o, m, X.arg(o), X.out0)
        t = X.do(o, m2, par2 if o == 'reset1' else X.arg(o), X.out0)
        a = dict(leaf_list(s.m))
        todo = X.sides(s, t, (), ('code', 'out') if o in ('update', 'predict') else ('code',))
        st = []
        for k, x, y, gd in X.states(s.m, t.m, L):
            if k in D: gd = and_(gd, not_(off(a, D[k])))
            st.append((k, x, y, gd))
        return s, t, todo, st

    # the relation, grown by values derived from parameters of disabled features
    for rounds in range(8):
        m2 = other(X.m, D, 'other:')
        grown = False
        sides = {o: follow(X.m, m2, par2, o, D, True) for o in OPS}
        for o in OPS:
            s, t, todo, st = sides[o]
            res = X.equalities(st, TRUE, quick=True)
            for k, v in res.items():
                if v[0] == 'eq' or k in D: continue
                src = {re.sub(r'^other:(par)?', '', n.a[0]) for n in reach([dict(leaf_list(t.m))[k]]).values() if n.op in ('sym', 'sseq') and str(n.a[0]).startswith('other:')}
                feats = {D[q][0] if q in D else DP[q][0] for q in src if q in D or q in DP}
                if len(feats) != 1: continue
                f = feats.pop()
                c = sorted({(x[1], x[2]) for x in D.values() if x[0] == f}, key=lambda z: (-common(z[0], k), z))
                D[k] = (f, c[0][0], c[0][1]); grown = True
        if not grown: break
    R.cov['state_leaves_varied'] = sorted(D)

    def group(cut):
        obs = []
        for o in OPS:
            s, t, todo, st = sides[o]
            if todo: obs.append((o, todo, TRUE, 'a parameter of a disabled feature influences a status or result'))
            obs.append((o + '/state', st, TRUE, 'a parameter of a disabled feature influences the state'))
        return obs

    base = []

    def start():
        # two modelers given parameters that differ in disabled features only,
        # then the same down event; what the stroke accumulates afterwards is
        # arbitrary but the same
        if not base:
            f = X.fresh()
            a, b = X.do('reset1', f, X.par), X.do('reset1', f, par2)
            g = and_(X.ok(a), X.ok(b))
            x = X.input('first')
            c = eq(rec_get(x, 'event_type'), num(0, 'i'))
            a, b = X.do('update', X.given(a.m, g), x, EMPTY, c), X.do('update', X.given(b.m, g), x, EMPTY, c)
            g = and_(g, and_(c, and_(X.ok(a), X.ok(b))))
            m, m2 = X.given(a.m, g), X.given(b.m, g)
            H, _ = held(X, m, [('update', not_(X.isev('down'))), ('predict', TRUE)], g, [k for k in X.ml if k in L])
            base.append((a, b, X.havoc(m, H, 'z'), X.havoc(m2, H, 'z'), g))
        return base[0]

    def confirm(n, ks):
        # only what a caller sees counts
        if n == 'reset1':
            f = X.fresh()
            a, b = X.do('reset1', f, X.par), X.do('reset1', f, par2)
            return ks if X.equalities([('status', a.code, b.code, TRUE)], TRUE)['status'][0] == 'diff' else set()
        if n not in ('update', 'predict'): return set()
        a, b, m, m2, g = start()
        if n == 'update' and any(v[0] == 'diff' for v in X.equalities(X.sides(a, b, (), ('code', 'out')), g).values()): return ks
        for c in ((X.isev('move'), X.isev('up')) if n == 'update' else (TRUE,)):
            p, q = X.do(n, m, X.arg(n), X.out0, c), X.do(n, m2, X.arg(n), X.out0, c)
            r = X.equalities([t for t in X.sides(p, q, (), ("code", "out")) if t[0] in ks], c)
            if any(v[0] == 'diff' for v in r.values()): return ks
        return set()
    X.settle(group, confirm)
    X.finish()


# ------------------------------------------------------------------ C21
class Columns:
    """Rewrites a value graph so that every sequence of records becomes one
    sequence per group of record fields (structure of arrays), and every loop
    keeps only the carried cells its value needs.  What a value depends on is
    then visible field by field."""

    def __init__(self, groups, simp=None): self.groups = groups; self.memo = {}; self.smemo = {}; self.simp = simp

    def group(self, path): return path[0] if path and path[0] in self.groups else 'rest'

    def cond(self, c):
        if not self.simp: return self.val(c)
        return self.simp(self.val(self.simp(c)))

    def val(self, n):
        r = self.memo.get(n.id)
        if r is None: r = self.memo[n.id] = self.val0(n)
        return r

    def val0(self, n):
        o = n.op
        if o == 'at':
            s, i, path = n.a
            return at_leaf(self.seq(s, self.group(path)), self.val(i), path, sort=n.sort)
        if o == 'size': return size(self.seq(n.a[0], 'rest'))
        if n.sort == 'seq': return mk('columns', *[self.seq(n, g) for g in ('rest',) + tuple(self.groups)], sort='seq')
        if o == 'after': return after(self.loop(n.a[0], e := self.val(n.a[1])), e)
        if o in ('n', 'b', 'unit', 'str', 'inf', 'ninf', 'nan', 'undef', 'sym', 'mu', 'ptr', 'iter', 'riter', 'bins', 'clo'): return n
        if o == 'ite' and self.simp:
            c = self.cond(n.a[0])
            if c is TRUE: return self.val(n.a[1])
            if c is FALSE: return self.val(n.a[2])
            return ite(c, self.val(n.a[1]), self.val(n.a[2]))
        if n.sort == 'b' and self.simp:
            c = self.simp(n)
            if c is not n: return self.val(c)
        a = [self.val(x) if isinstance(x, Node) else x for x in n.a]
        if o == 'add':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if y.op == 'sub' and y.a[1] is x and y.a[0].sort == n.sort: return y.a[0]
        return rebuild(n, a)

    def part(self, v, g):
        if v.op == 'rec':
            keep = [f for f in v.a[1] if (f if f in self.groups else 'rest') == g]
            return rec(v.a[0], keep, [self.deep(rec_get(v, f)) for f in keep])
        return self.deep(v) if g == 'rest' else UNIT

    def deep(self, v): return remap(v, lambda k, x: self.val(x))

    def seq(self, n, g):
        k = (n.id, g)
        r = self.smemo.get(k)
        if r is None: r = self.smemo[k] = self.seq0(n, g)
        return r

    def seq0(self, n, g):
        o = n.op
        if o == 'sempty': return n
        if o == 'sseq': return sseq('%s|%s' % (n.a[0], g), n.a[1])
        if o == 'mu': return mk('mu', (n.a[0], g), sort='seq')
        if o == 'push': return push(self.seq(n.a[0], g), self.part(n.a[1], g))
        if o == 'set': return setat(self.seq(n.a[0], g), self.val(n.a[1]), self.part(n.a[2], g))
        if o == 'popf': return popf(self.seq(n.a[0], g))
        if o == 'popb': return popb(self.seq(n.a[0], g))
        if o == 'ite':
            c = self.cond(n.a[0])
            if c is TRUE: return self.seq(n.a[1], g)
            if c is FALSE: return self.seq(n.a[2], g)
            return ite(c, self.seq(n.a[1], g), self.seq(n.a[2], g))
        if o == 'after':
            e = self.seq(n.a[1], g)
            return after(self.loop(n.a[0], e), e)
        a = [self.val(x) if isinstance(x, Node) else x for x in n.a]
        return mk(o, *(a + [g]), sort='seq')

    def loop(self, L, e):
        done = self.val(L.done)
        cells = {}
        for m, i, nx in L.mus:
            if m.sort == 'seq':
                for g in ('rest',) + tuple(self.groups): cells[self.seq(m, g)] = (i, nx, g)
            else: cells[m] = (i, nx, None)
        need, todo = {}, list(free_mus(e) | free_mus(done))
        while todo:
            m = todo.pop()
            if m in need or m not in cells: continue
            i, nx, g = cells[m]
            need[m] = (self.val(i), self.val(nx)) if g is None else (self.seq(i, g), self.seq(nx, g))
            todo += list(free_mus(need[m][1]))
        return Loop(tuple((m, need[m][0], need[m][1]) for m in cells if m in need), done, L.where)


ATTRS = ('pressure', 'tilt', 'orientation')


def lastname(k): return re.split(r'[.>]', k)[-1].rstrip('_')


def opts_of(v, name, out):
    """(has, payload record) of every optional that holds a record called name."""
    if v.op == 'opt':
        r = v.a[1]
        found = []

        def go(x):
            if x.op == 'rec':
                if x.a[0].endswith(name): found.append(x); return
                for y in x.a[2:]: go(y)
        go(r)
        out += [(v.a[0], x) for x in found]
    for x in v.a:
        if isinstance(x, Node) and x.op in AGG: opts_of(x, name, out)
    return out


def houdini(X, cands, ops, base):
    """Largest subset of the candidate facts (functions of a leaf map) that
    holds on a new modeler and that every operation keeps."""
    f = dict(leaf_list(base))
    keep = []
    for n, c in cands:
        if X.equalities([('c', TRUE, c(f), TRUE)], TRUE, quick=True)['c'][0] == 'eq': keep.append((n, c))
    post = {o: dict(leaf_list(X.op(o).m)) for o in ops}
    while True:
        J = TRUE
        for n, c in keep: J = and_(J, c(X.ml))
        bad = set()
        for o in ops:
            todo = [(n, TRUE, c(post[o]), TRUE) for n, c in keep if c(post[o]) is not c(X.ml)]
            if not todo: continue
            r = X.equalities(todo, J, quick=True)
            bad |= {n for n in r if r[n][0] != 'eq'}
        if not bad: return keep
        keep = [x for x in keep if x[0] not in bad]


def implies(a, b): return or_(not_(a), b)


class Attributes:
    """Noninterference between stylus attributes and the rest.

    The secret is a set of input fields.  A relation on modelers says which
    leaves and which columns of its sequences may depend on them: the copies of
    these fields, flags computed from them, and, in the states where nothing of
    it can be seen any more, the whole input history.  Each operation is shown
    to keep the relation and to keep results and status clean, splitting on
    parameters and flags where the plain dependence is too coarse."""

    def __init__(self, X):
        self.X = X
        X.I.cutload = True
        self.runs = 0
        self.grown = {}
        ml = X.ml
        L = X.live()
        lasts = opts_of(X.m, 'Input', [])
        code = deps([X.op('update').code])
        self.lasts = [(h, r) for h, r in lasts if h.id in code]
        self.copies = {k for k, x in ml.items() if x.sort == 'f' and lastname(k) in ATTRS}
        self.proj = [k for k in ml if lastname(k) == 'use_stroke_normal_projection' and k in L]
        self.mit = [k for k in ml if lastname(k) == 'is_enabled' and 'loop' in k and k in L]
        self.has = [X.byid[h.id] for h, r in self.lasts]
        self.seqs = {x.a[0]: k for k, x in ml.items() if x.sort == 'seq'}
        # sequences of records that hold attributes
        self.wide = set()
        while True:
            n = {k for k in ml if ml[k].sort == 'seq' and k not in self.wide and self.holds(k)}
            if not n: break
            self.wide |= n
        self.inv = self.invariants()
        self.flags = {a: set() for a in ATTRS}
        for a in ATTRS:
            for o in ('down', 'move', 'up'):
                s = self.step(o, {h: FALSE if o == 'down' else TRUE for h in self.has})
                for k, x in leaf_list(s.m):
                    if ml[k].sort == 'b' and k in L and rec_get(X.inp, a).id in {d.id for d in self.syms([s.C.val(x)])}: self.flags[a].add(k)
            f = {lastname(k) for k in self.flags[a]}
            self.flags[a] |= {k for k in ml if lastname(k) in f and ml[k].sort == 'b'}

    def syms(self, nodes): return [n for n in reach(nodes).values() if n.op in ('sym', 'sseq')]

    def holds(self, k):
        for o in ('down', 'move', 'up', 'save', 'restore'):
            st = [dict(leaf_list(self.X.op(o).m))[k]]
            seen = set()
            while st:
                x = st.pop()
                if x.id in seen or x.sort != 'seq': continue
                seen.add(x.id)
                if x.op == 'sseq' and self.seqs.get(x.a[0]) in self.wide: return True
                if x.op == 'push' and x.a[1].op == 'rec' and set(x.a[1].a[1]) & set(ATTRS): return True
                if x.op == 'after':
                    st.append(x.a[1])
                    for m, i, nx in x.a[0].mus: st += [i, nx] if m.id in {q.id for q in free_mus(x.a[1])} else []
                st += [y for y in x.a if isinstance(y, Node)]
        return False

    def invariants(self):
        X = self.X
        tops = [k for k in X.ml if X.ml[k].sort == 'b' and k.count('.') == 1 or k.endswith('.oh') and k.count('.') == 2]
        guards = [()] + [(a,) for a in tops] + [(a, b) for i, a in enumerate(tops) for b in tops[i + 1:]]
        cands = []
        for g in guards:
            for e in self.mit:
                for u in self.proj:
                    def c(l, g=g, e=e, u=u):
                        r = implies(l[e], l[u])
                        for x in g: r = implies(l[x], r)
                        return r
                    cands.append((g + (e, u), c))
        return houdini(X, cands, ('down', 'move', 'up', 'reset1', 'reset0', 'save', 'restore'), X.fresh())

    def possible(self, consts):
        l = {k: consts.get(k, x) for k, x in self.X.ml.items()}
        return not any(c(l) is FALSE for n, c in self.inv)

    def near(self, k, ks):
        ks = [x for x in ks]
        return max(ks, key=lambda x: (common(x, k), x)) if ks else None

    def step(self, o, consts):
        """The operation with these leaves fixed and these facts assumed."""
        X = self.X
        m = X.with_consts(X.m, consts)
        pre = TRUE
        if o in ('down', 'move', 'up'): pre = X.isev(o)
        st = N_State()
        X.I.assume(st, pre)
        if o in ('down', 'move', 'up'):
            for h, r in self.lasts:
                # the status of an exact duplicate is left out
                d = self.same(r)
                if consts.get(X.byid[h.id]) is not FALSE:
                    pre = and_(pre, not_(and_(consts.get(X.byid[h.id], h), d)))
                    X.I.assume(st, not_(and_(consts.get(X.byid[h.id], h), d)))
        s = X.do('update' if o in ('down', 'move', 'up') else o, m, X.arg('update' if o in ('down', 'move', 'up') else o), X.out0, pre)
        s.pre = pre
        s.C = Columns(ATTRS, lambda c: X.I.simp(c, st.facts))
        self.runs += 1
        return s

    def same(self, r):
        X = self.X
        if not hasattr(self, '_eq'):
            self._eq = [f for f in X.P.funcs.values() if f['n'] == 'operator==' and len(f['ps']) == 2 and f['ps'][0]['t'].s.replace('const ', '').rstrip(' &').endswith('::Input')]
        if not self._eq: raise AnalysisError('operator==(Input, Input)')
        f = self._eq[0]
        st = N_State()
        st.mem['p:a'] = r; st.mem['p:b'] = X.inp
        return X.I.invoke(f['key'], None, [LV('p:a'), LV('p:b')], st, {'t': f['ret'], 'ln': f['ln']})

    # which symbols are secret in mode a (None: all attributes, geometry is
    # observed; otherwise the two other attributes, a and geometry are)
    def secret(self, a, consts):
        X = self.X
        bad = [b for b in ATTRS if b != a]
        cols = ['rest'] + ([a] if a else [])
        flags = set().union(*[self.flags[b] for b in bad]) - (self.flags[a] if a else set())
        more = self.grown.get(a, set())

        def is_(n):
            nm = n.a[0]
            if n.op == 'sym':
                k = X.byid.get(n.id)
                if k is None: return n.id in {rec_get(X.inp, b).id for b in bad}
                return k in flags or k in more or k in self.copies and lastname(k) in bad
            base, _, g = nm.partition('|')
            k = self.seqs.get(base)
            if k in more: return True
            if k is None or k not in self.wide: return False
            return g not in cols or self.excuse(a, k, lambda x: consts.get(x, X.ml[x])) is not FALSE
        return is_, cols, flags | self.grown.get(a, set())

    def excuse(self, a, k, leaf):
        """When the history in k is not observable."""
        e = not_(leaf(self.near(k, self.proj)))
        if a: e = and_(e, leaf(self.near(k, self.flags[a])))
        return e

    def check(self, a, o, consts=None, depth=0):
        """Failing obligations of one operation: [(consts, facts, side, names)]"""
        X = self.X
        consts = consts or {}
        if not self.possible(consts): return []
        s = self.step(o, consts)
        bad, hints = self.unclean(a, o, consts, s, s.C)
        if not bad: return []
        # split where the dependence is too coarse: first on what the modeler
        # was configured with, then on the branch taken
        seen = {x.id for x in self.syms([x for n, x in bad] + hints)}
        order = self.has + self.proj + self.mit
        if a: order += sorted(self.flags[a])
        for k in order:
            if k not in consts and X.ml[k].id in seen and depth < 9:
                r = []
                for v in (TRUE, FALSE): r += self.check(a, o, dict(consts, **{k: v}), depth + 1)
                return r
        return self.branches(a, o, consts, s, ())

    def branches(self, a, o, consts, s, facts):
        X = self.X
        self.budget = getattr(self, 'budget', 0) + 1
        st = N_State()
        X.I.assume(st, s.pre)
        for f in facts: X.I.assume(st, f)
        if st.pc is FALSE: return []
        C = Columns(ATTRS, lambda c: X.I.simp(c, st.facts))
        bad, hints = self.unclean(a, o, consts, s, C)
        if not bad: return []
        if len(facts) < 48 and self.budget < 4000:
            c = self.atom([x for n, x in bad] + hints, facts, self.secret(a, consts)[0])
            if c is not None: return self.branches(a, o, consts, s, facts + (c,)) + self.branches(a, o, consts, s, facts + (not_(c),))
        return [(consts, facts, s, bad)]

    def atom(self, nodes, facts, is_):
        """An undecided branch condition at the top of one of the values, on
        which two runs that differ in secrets agree."""
        seen = set()
        todo = list(reversed(nodes))
        while todo:
            x = todo.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'ite' or x.sort == 'b' and x.op in ('and', 'or', 'not'): todo += reversed(x.a); continue
            if x.sort != 'b' or x.op == 'b' or free_mus(x): continue
            if x.op == 'sym' and x.id not in self.X.byid: continue
            if any(x is f or x is not_(f) for f in facts): continue
            if any(is_(y) for y in self.syms([x])): continue
            return x
        return None

    def unclean(self, a, o, consts, s, C):
        X = self.X
        is_, cols, flags = self.secret(a, consts)
        post = dict(leaf_list(s.m))
        V = C.val
        todo = []
        if s.code is not None: todo.append(('status', V(s.code)))
        if o in ('down', 'move', 'up', 'predict'): todo += [('results/' + ('geometry' if g == 'rest' else g), C.seq(s.out, g)) for g in cols]
        allowed = self.copies if a is None else {k for k in self.copies if lastname(k) != a}
        hints = []
        for k in sorted(X.live()):
            if post[k] is X.ml[k] or k in flags or k in allowed: continue
            if post[k].sort != 'seq': todo.append((k, V(post[k]))); continue
            if k not in self.wide: todo.append((k, C.seq(post[k], 'rest'))); continue
            ex = C.cond(self.excuse(a, k, lambda x: post[x]))
            if ex is TRUE: continue
            for g in cols:
                n = C.seq(post[k], g)
                todo.append((k + '|' + g, n))
                if ex is not FALSE and any(is_(x) for x in self.syms([n])): hints.append(ex)
        self.obligations = getattr(self, 'obligations', 0) + len(todo)
        return [(n, x) for n, x in todo if any(is_(y) for y in self.syms([x]))], hints


    def histories(self):
        """Outputs of strokes that start on a new modeler: (name, side, pre)."""
        X = self.X
        if not hasattr(self, '_hist'):
            f = X.do('reset1', X.fresh(), X.par)
            g = X.ok(f)
            m = X.given(f.m, g)
            out = []
            for i, k in enumerate(('down', 'move', 'last')):
                x = X.input('past%d' % i)
                ev = rec_get(x, 'event_type')
                e = eq(ev, num(i, 'i')) if i < 2 else not_(eq(ev, num(0, 'i')))
                s = X.do('update', m, x, EMPTY, e)
                g2 = and_(g, e)
                for h, r in opts_of(m, 'Input', []):
                    g2 = and_(g2, not_(and_(h, self.equal(r, x))))
                out.append((k, s, g2))
                g = and_(g2, X.ok(s))
                if i == 2: break
                m = X.given(s.m, g)
                out.append((k + '/predict', X.do('predict', m, None, EMPTY), g))
            self._hist = out
        return self._hist

    def equal(self, r, x):
        X = self.X
        f = self._eq[0]
        st = N_State()
        st.mem['p:a'] = r; st.mem['p:b'] = x
        return X.I.invoke(f['key'], None, [LV('p:a'), LV('p:b')], st, {'t': f['ret'], 'ln': f['ln']})

    def confirm(self, a, limit):
        """Two strokes that differ in secrets only: [(name, key, verdict info)]"""
        X = self.X
        t0 = time.time()
        bad = [b for b in ATTRS if b != a]
        mp = {}
        for i in range(3):
            x = X.input('past%d' % i)
            for b in bad: mp[rec_get(x, b)] = sym('other%d.%s' % (i, b), 'f')
        memo = {}
        for name, s, g in self.histories():
            C = Columns(ATTRS)
            g2 = subst(g, mp, memo)
            todo = [('status', s.code, subst(s.code, mp, memo), TRUE)]
            ok = X.ok(s)
            for c in ['rest'] + ([a] if a else []):
                n = C.seq(s.out, c)
                todo.append(('results/' + ('geometry' if c == 'rest' else c), n, subst(n, mp, memo), ok))
            if time.time() - t0 > limit: return None
            r = X.equalities(todo, and_(g, g2), tlimit=15)
            for k, v in r.items():
                if v[0] == 'diff': return name, k, v[1], todo
        return None


    def sites(self, a, fails):
        """Where the leaking operations branch on secrets."""
        from check import rel2, VERIF
        out = {}
        for o, r in fails:
            for consts, facts, s, bad in r:
                is_ = self.secret(a, consts)[0]
                roots = [s.code] if s.code is not None else []
                if s.out is not None: roots.append(s.out)
                roots += [x for k, x in leaf_list(s.m) if k in self.X.live()]
                for n in reach(roots).values():
                    p = self.X.I.prov.get(n.id)
                    if p and p[0] is not None and not (p[0].get('file') or '').startswith(VERIF) and any(
                            y.op == 'sym' and is_(y) or y.sort == 'b' and any(z.op == 'sym' and is_(z) for z in children(y)) for y in children(n)):
                        k = (rel2(p[0].get('file')), p[1], p[0]['qn'])
                        out[k] = out.get(k, 0) + 1
        return [{'file': k[0], 'line': k[1], 'function': k[2]} for k, _ in sorted(out.items(), key=lambda z: -z[1])[:8]]


def attributes(P, R, thorough):
    X = Rel(P, R, thorough)
    A = Attributes(X)
    if not A.wide or not all(A.flags.values()): R.undecided('relation', 'no attribute history or flags found')
    limit = 60
    for a in (None,) + ATTRS:
        what = 'geometry' if a is None else a
        ops = ('down', 'move', 'up', 'predict', 'reset1', 'reset0', 'save', 'restore')
        while True:
            fails = []
            for o in ops:
                A.budget = 0
                r = A.check(a, o)
                if r: fails.append((o, r))
            # whatever else remembers a secret must not reach a result either
            g = {n for o, r in fails for c, f, s, bad in r for n, x in bad if n in X.ml} - A.grown.get(a, set())
            if not g: break
            A.grown.setdefault(a, set()).update(g)
        for o in ops:
            if o not in [f[0] for f in fails]: R.ok('%s/%s' % (what, o), 'depends on no other attribute')
        if not fails: continue
        d = A.confirm(a, limit)
        if d is None: limit = 10
        for o, r in fails:
            k = sorted({n for c, f, s, bad in r for n, x in bad})
            if d is None: R.undecided('%s/%s' % (what, o), 'may depend on other attributes: ' + ', '.join(k[:4]))
        if d is not None:
            name, key, info, todo = d
            t = [x for x in todo if x[0] == key][0]
            R.bad('%s:%s/%s' % (what, name, key), ('stylus attributes influence the geometry' if a is None else 'another attribute influences ' + a),
                  A.sites(a, fails), case=[str(c)[:200] for c in info['case']][-40:], expected=str(info['reference'])[:1500], found=str(info['actual'])[:1500],
                  flows=['%s: %s' % (o, ', '.join(sorted({n for c, f, s, bad in r for n, x in bad}))) for o, r in fails][:12])
    R.cov['relation'] = {'history': sorted(A.wide), 'flags': {a: sorted(f) for a, f in A.flags.items()}, 'invariants': [' '.join(n) for n, _ in A.inv]}
    R.cov['dependence_obligations'] = A.obligations
    R.cov['operation_cases'] = A.runs
    X.finish()


def sized(P, R, thorough):
    """How many results a call appends, read off the loops that append them."""
    import sizes
    X = Rel(P, R, thorough)
    r = X.op('reset1')
    # one of the kinds of prediction there are
    kind = rec_get(X.par, 'prediction_params')
    kind = next((x for k, x in leaf_list(kind) if k == '.vt'), None)
    ok1 = X.ok(r)
    if kind is not None: ok1 = and_(ok1, or_(eq(kind, num(0, 'i')), or_(eq(kind, num(1, 'i')), eq(kind, num(2, 'i')))))
    m1 = X.havoc(X.given(r.m, ok1), X.config(), 'y:')
    M = rec_get(rec_get(X.par, 'sampling_params'), 'max_outputs_per_call')
    one = num(1, 'i')

    def look(o, m, g):
        ev = X.isev(o) if o != 'predict' else TRUE
        s = X.do('update' if o != 'predict' else o, m, X.inp, EMPTY if o == 'predict' else X.out0, and_(g, ev))
        pre = and_(and_(g, ev), X.ok(s))
        out = X.given(s.out, pre)
        return pre, size(out) if o == 'predict' else sub(size(out), size(X.out0)), out

    def kept(out, c, found):
        """What the results are appended to: (when, anything but the caller's vector)"""
        o = out.op
        if out is X.out0: return found
        if o == 'push': return kept(out.a[0], c, found)
        if o == 'ite':
            kept(out.a[1], and_(c, out.a[0]), found)
            return kept(out.a[2], and_(c, not_(out.a[0])), found)
        if o == 'after':
            for mu, init, nx in out.a[0].mus:
                if mu is out.a[1]:
                    mine = []
                    through(mu, nx, mine)
                    for x in mine: found.append((c, x))
                    return kept(init, c, found)
            m = [mu for mu, init, nx in out.a[0].mus if mu.sort == 'seq' and mu.id in reach([out.a[1]])]
            if len(m) == 1:
                mine = []
                through(m[0], out.a[1], mine)
                for x in mine: found.append((c, x))
                return kept(next(i for mu, i, nx in out.a[0].mus if mu is m[0]), c, found)
        if c is not FALSE: found.append((c, out))
        return found

    def through(mu, n, found):
        if n is mu: return
        if n.op == 'push': return through(mu, n.a[0], found)
        if n.op == 'ite': through(mu, n.a[1], found); return through(mu, n.a[2], found)
        if n.op == 'after':
            for m, init, nx in n.a[0].mus:
                if m is n.a[1]: through(m, nx, found); return through(mu, init, found)
        found.append(n)

    def prefix(o):
        name = 'results-before/' + o
        pre, e, out = look(o, m1, ok1)
        found = kept(out, TRUE, [])
        bad = None
        for c, x in found:
            v = X.equalities([('q', FALSE, c, TRUE)], pre, tlimit=30)['q']
            if v[0] == 'eq': continue
            if x.op not in ('sempty', 'set', 'popf', 'popb'): bad = bad or x; continue
            for m, g in X.reached(3):
                pre2, e2, out2 = look(o, m, g)
                for c2, x2 in kept(out2, TRUE, []):
                    if x2.op != x.op: continue
                    v = X.equalities([('q', FALSE, c2, TRUE)], pre2, tlimit=30)['q']
                    if v[0] == 'diff':
                        R.bad(name, 'an accepted input changes or drops results that were in the vector before', site('ink_stroke_modeler/stroke_modeler.cc'),
                              case=[str(z)[:200] for z in v[1]['case']][-40:], results=str(x2)[:400])
                        return
            bad = bad or x
        if bad is not None: R.undecided(name, 'results made by %s: %s' % (bad.op, str(bad)[:200]))
        else: R.ok(name, 'only appended to')

    def starts(o):
        if o != 'predict' or kind is None: return [(m1, ok1)]
        out = []
        for i in range(3):
            mp = {kind: num(i, 'i')}
            out.append((remap(m1, lambda k, x: subst(x, mp)), subst(ok1, mp)))
        return out

    def opaque(c):
        """Its comparisons as linear ones over unknown numbers."""
        mp = {}
        def go(n):
            if n.op in ('and', 'or', 'not', 'lt', 'le', 'eq', 'add', 'sub', 'neg') or n.op == 'ite' and n.sort == 'b':
                for x in n.a: go(x)
            elif n.sort in ('i', 'f') and not isnum(n): mp[n] = sym('any%d' % n.id, n.sort)
        go(c)
        return subst(c, mp)

    def prove(h, q, pre, sl):
        """q is impossible under pre and h"""
        v = X.equalities([('q', FALSE, opaque(and_(h, q)), TRUE)], TRUE, tlimit=3)['q']
        if v[0] == 'eq': return v
        todo = [('q', FALSE, and_(h, q), TRUE)]
        v = X.equalities(todo, pre, quick=True)['q']
        if v[0] == 'eq': return v
        for c in sizes.conjuncts(h):
            if c.op == 'lt' and c.a[1] is num(0, 'i') and nonneg(c.a[0], sl()): return ('eq', 'sign')
        for t in ([('q', FALSE, q, TRUE)], todo):
            w = X.equalities(t, sl(), tlimit=20)['q']
            if w[0] == 'eq': return w
        if time.time() > X.deadline: return ('unknown', 'time')
        return X.equalities(todo, pre, tlimit=20)['q']

    def more(n):
        """Without the negative constants of a sum."""
        if n.op == 'add': return add(*[more(x) for x in n.a]) if not any(isnum(x) and x.a[0] < 0 for x in n.a) else more(next((x for x in n.a if not isnum(x)), n))
        if n.op == 'sub': return sub(more(n.a[0]), n.a[1])
        return n

    signs = {}
    def nonneg(n, q):
        k = (n.id, q.id)
        if k not in signs: signs[k] = nonneg0(n, q)
        return signs[k]

    def nonneg0(n, q):
        o = n.op
        if isnum(n): return n.a[0] >= 0
        if o == 'ite': return nonneg(n.a[1], and_(q, n.a[0])) and nonneg(n.a[2], and_(q, not_(n.a[0])))
        if o in ('f2i', 'ceil', 'floor', 'i2f', 'inv', 'mul') and all(isinstance(x, Node) for x in n.a): return all(nonneg(x, q) for x in n.a)
        if o in ('size', 'undef'): return True
        if o == 'div': return all(nonneg(x, q) for x in n.a)
        if o == 'fn' and n.a[0] in ('sqrt', 'abs', 'fabs', 'acos', 'exp'): return True
        if o == 'fn' and n.a[0] in ('ceil', 'floor', 'f2i', 'i2f', 'inv', 'trunc'): return all(nonneg(x, q) for x in n.a[1:])
        return X.equalities([('q', FALSE, lt(n, num(0, n.sort)), TRUE)], q, tlimit=3)['q'][0] == 'eq'

    def bounds(o, m, g):
        """(case, lower, upper, pre) for one kind of call"""
        pre, e, s = look(o, m, g)
        memo = []
        def sl():
            if not memo: memo.append(X.settled(pre))
            return memo[0]
        for e2, f in sizes.cases(e):
            S = sizes.Sizes(f)
            try: lo, hi = S.int(e2)
            except sizes.NoBound as x: yield None, str(x), None, pre, sl; continue
            for w in S.loops: loops.add(w)
            yield S, lo, hi, pre, sl

    loops = set()
    wants = {'max': lambda x: lt(M, x), 'min': lambda x: lt(x, one)}
    says = {'max': 'a call appends more results than max_outputs_per_call', 'min': 'an accepted input appends no result'}

    def real(o, w):
        """The call breaks the bound on a state that a history reaches (short
        histories, with the optional features off as far as possible)."""
        t = time.time() + 250
        paths = {'down': ((), ('down',)), 'predict': (('down', 'move'), ('down', 'move', 'move'), ('down',))}.get(o, (('down',), ('down', 'move')))
        kinds = (0, 1, 2) if o == 'predict' else (0,)
        for path in paths:
            for angle in (True, False):
                for kd in kinds:
                    m, g = X.simple(path, kd, angle)
                    for S, lo, hi, pre, sl in bounds(o, m, g):
                        if S is None or lo != hi and not (w == 'max' and S.exact): continue
                        for h, x in hi:
                            if time.time() > t: return None
                            X.deadline = t
                            if w == 'max' and prove(h, wants[w](more(x)), pre, sl)[0] == 'eq' or prove(h, wants[w](x), pre, sl)[0] == 'eq': continue
                            # what is counted is not negative
                            g2 = pre
                            for z in reach([x]).values():
                                if z.sort == 'i' and z.op in ('f2i', 'fn') and nonneg(z, sl()): g2 = and_(g2, not_(lt(z, num(0, 'i'))))
                            v = X.equalities([('q', FALSE, and_(h, wants[w](x)), TRUE)], g2, tlimit=20)['q']
                            if DEBUG: print('real', o, w, path, kd, angle, v[0], str(v[1])[:60], str(h)[:200], str(x)[:200])
                            if v[0] == 'diff': return v, h, x, sorted(S.loops)
        return None

    ops = ('down', 'move', 'up', 'predict')
    for o in ops:
        if o != 'predict': prefix(o)
        X.deadline = time.time() + 100
        n = 0
        left = {}
        for S, lo, hi, pre, sl in (b for m, g in starts(o) for b in bounds(o, m, g)):
            n += 1
            if S is None: left.setdefault('max', lo); left.setdefault('min', lo) if o != 'predict' else None; continue
            for w, c in (('max', hi), ('min', lo)):
                if w == 'min' and o == 'predict': continue
                for h, x in c:
                    v = prove(h, wants[w](more(x)), pre, sl) if w == 'max' and more(x) is not x else ('unknown',)
                    if v[0] != 'eq': v = prove(h, wants[w](x), pre, sl)
                    if DEBUG and v[0] != 'eq': print('left', o, w, v[0], str(x)[:300], 'WHEN', str(h)[:600])
                    if v[0] != 'eq': left.setdefault(w, 'not shown for %s when %s' % (str(x)[:200], str(h)[:200]))
        for w in ('max', 'min'):
            if w == 'min' and o == 'predict': continue
            name = 'size/%s/%s' % (o, w)
            if w not in left: R.ok(name, 'bounds of %d cases of the number of results' % n); continue
            b = real(o, w)
            if b: R.bad(name, says[w], [y for z in b[3] or ['ink_stroke_modeler/stroke_modeler.cc'] for y in site(z)], case=[str(c)[:200] for c in b[0][1]['case']][-40:], number_of_results=str(b[2])[:400], when=str(b[1])[:400])
            else: R.undecided(name, left[w])
    R.cov['result_loops'] = sorted(loops)
    X.finish()


def terminating(P, R, thorough):
    """Every loop is left after finitely many rounds: a counter, or a sequence
    that every round shortens."""
    import sizes
    X = Rel(P, R, thorough)
    # in a stroke: parameters installed by a reset and a down event, everything
    # that inputs add to arbitrary
    md, gd = X.reached(2)[1]
    r0 = X.reached(1)[0][1]  # the parameters are valid
    m1, ok1 = X.havoc(md, X.config(), 'y:'), gd

    def counter(L):
        mus = {mu for mu, _, _ in L.mus}
        for d in sizes.disjuncts(L.done):
            c, neg = (d.a[0], True) if d.op == 'not' else (d, False)
            if c.op not in ('lt', 'le') or c.a[0].sort != 'i': continue
            x, y = (c.a[1], c.a[0]) if neg else c.a  # left once x < y
            for mu, init, nx in L.mus:
                if mu.sort != 'i': continue
                k = sizes.step(nx, mu)
                if not k: continue
                for side, other, up in ((y, x, True), (x, y, False)):
                    # the counter plus something fixed
                    if side is not mu:
                        if side.op not in ('add', 'sub'): continue
                        rest = sub(side, mu)
                        if N.free_mus(rest) & mus: continue
                    if N.free_mus(other) & mus or (k > 0) != up: continue
                    return 'counter'
        return None

    def shorter(L):
        return [(mu, init) for mu, init, nx in L.mus if mu.sort == 'seq' and nx.op in ('popf', 'popb') and nx.a[0] is mu]

    memo = {}
    def slim(pre):
        if pre.id not in memo:
            q = X.settled(pre)
            memo[pre.id] = q
        return memo[pre.id]

    def stronger(d, q):
        """Lower limits of the same number that a condition mentions."""
        c = d.a[0] if d.op == 'not' else d
        if d.op != 'not' or c.op != 'lt' or not isnum(c.a[1]): return []
        return [not_(x) for x in X.atoms(q, {}).values() if x.op == 'lt' and x.a[0] is c.a[0] and isnum(x.a[1]) and x.a[1].a[0] > c.a[1].a[0]]

    def left(L, mu, init, pre, exact):
        """The loop is left before or when the sequence is empty."""
        best = None
        weak = False
        if N.free_mus(pre):
            cs = [c for c in sizes.conjuncts(pre) if not N.free_mus(c)]
            pre, weak = TRUE, True
            for c in cs: pre = and_(pre, c)
        for s in ([push(EMPTY, init.a[1])] if init.op == 'push' else []) + [EMPTY]:
            c = subst(L.done, {mu: s})
            if N.free_mus(c): continue
            few = r0
            for z in sizes.conjuncts(pre):
                if len(reach([z])) < 12: few = and_(few, z)
            on = {z: TRUE for z in sizes.conjuncts(pre) if z.op == 'sym'}
            for d, q in [(d, q) for d in sizes.disjuncts(c)[:4] + [c] for q in (subst(r0, on), few, pre)]:
                for z in [d] + stronger(d, q):
                    v = X.equalities([('q', TRUE, z, TRUE)], q, quick=True)['q']
                    if v[0] == 'eq': return v
            v = X.equalities([('q', TRUE, c, TRUE)], slim(pre), tlimit=10)['q']
            if v[0] == 'eq': return v
            if exact: v = X.equalities([('q', TRUE, c, TRUE)], pre, tlimit=20)['q']
            if v[0] == 'eq': return v
            if DEBUG: print('left', L.where, v[0], str(c)[:200], exact, weak, str(v[1])[:100])
            if weak and v[0] == 'diff': v = ('unknown', 'in a loop')
            if best is None or v[0] == 'diff': best = v
        return best or ('unknown', 'other values the loop changes decide when it is left')

    def outcomes(e):
        return outcomes(e.a[1]) + outcomes(e.a[2]) if e.op == 'ite' else [e]

    def rounding(L, pre, one, exact):
        """A counter that is a floating-point number: it stops growing where
        its step is below its precision."""
        mus = {mu for mu, _, _ in L.mus}
        for d in sizes.disjuncts(L.done):
            c, neg = (d.a[0], True) if d.op == 'not' else (d, False)
            if c.op not in ('lt', 'le') or c.a[0].sort != 'f': continue
            x, y = (c.a[1], c.a[0]) if neg else c.a  # left once x < y
            for mu, init, nx in L.mus:
                if mu.sort != 'f' or not isnum(init): continue
                k = sizes.step(nx, mu)
                if not k or k != int(k): continue
                for side, other, up in ((y, x, True), (x, y, False)):
                    if side is not mu or N.free_mus(other) & mus or (k > 0) != up: continue
                    cap = num((2 ** 24 if mu.id in one else 2 ** 53) * (1 if up else -1), 'f')
                    ends = outcomes(other)
                    if all(z.op == 'i2f' and mu.id not in one or isnum(z) and abs(z.a[0]) <= abs(cap.a[0]) for z in ends): return 'ok', None
                    far = lt(cap, other) if up else lt(other, cap)
                    for q in (slim(pre), pre)[:2 if exact else 1]:
                        v = X.equalities([('q', TRUE, not_(far), TRUE)], q, tlimit=40 if exact else 20)['q']
                        if DEBUG: print('rounding', L.where, v[0], str(other)[:300])
                        if v[0] == 'eq': return 'ok', None
                    return v[0], v
        return None, None

    def judge(L, pre, one=(), exact=False):
        if L.done is FALSE: return 'bad', 'the loop is never left', None
        k = counter(L)
        if k: return 'ok', k, None
        k, v = rounding(L, pre, one, exact)
        if k == 'ok': return 'ok', 'counter', None
        if k == 'diff': return 'bad', 'the counter is a floating-point number and stops growing before it reaches the number of rounds', v
        why = 'no counter and no sequence that every round shortens'
        for mu, init in shorter(L):
            v = left(L, mu, init, pre, exact)
            if v[0] == 'eq': return 'ok', 'shortened sequence', None
            why = 'the loop can remove every element of the sequence and go on'
            if v[0] == 'diff': return 'bad', why, v
        # only a comparison of reals ends it, and how far it has to go is an input
        mus = {mu for mu, _, _ in L.mus}
        if sizes.reals(L.done) and not any(mu.sort == 'seq' for mu in mus):
            used = [(mu, i, nx) for mu, i, nx in L.mus if mu in N.free_mus(L.done)]
            if used and all(mu.sort == 'f' and nx.op in ('add', 'sub') and mu in nx.a and not any(N.free_mus(z) & mus for z in nx.a if z is not mu) and any(z.op in ('sym', 'at') for z in reach([i]).values()) for mu, i, nx in used):
                return 'bad', 'the number of rounds grows with the magnitude of a number; when a step is below its precision, the loop is never left', ('diff', {'case': []})
        return 'unknown', why, None

    def call(o, m, g, arg=None):
        del X.I.loops[:]
        s = X.do(o, m, arg if arg is not None else X.inp if o == 'update' else X.par if o == 'reset1' else None, X.out0, g)
        seen = {}
        for L, w, f, pc, one in X.I.loops: seen.setdefault((w, L.done.id, pc.id), (L, pc, one))
        return s, list(seen.items())

    n = {}
    for o, m, g in (('reset1', X.m, TRUE), ('update', m1, ok1), ('predict', m1, ok1), ('save', m1, ok1), ('restore', m1, ok1)):
        bad, why, kinds, total = {}, {}, {}, 0
        _, loops = call(o, m, g)
        for (w, _, _), (L, pc, one) in loops:
            total += 1
            a, b, v = judge(L, and_(g, pc), one)
            if a == 'ok': kinds[b] = kinds.get(b, 0) + 1
            elif a == 'bad': bad[w] = b
            else: why[w] = b
        if bad:
            # on a state that a history reaches?
            t0 = time.time()
            flags = [k for k, x in leaf_list(X.par) if x.sort == 'b' and x.op == 'sym'] + [None]
            keep = {x for (w, _, _), (L, pc, one) in loops if w in bad for x in reach([L.done]).values() if x.op == 'sym'}
            for path, on in [(p, f) for p in (('down',), ('down', 'move')) for f in flags]:
                if time.time() - t0 > 150: break
                m2, g2 = X.simple(path, 1, on=on, keep=keep)
                for (w, _, _), (L, pc, one) in call(o, m2, g2)[1]:
                    if w not in bad: continue
                    a, b, v = judge(L, and_(g2, pc), one, True)
                    if a == 'bad' and bad.get(w) == b:
                        R.bad('%s:%s' % (o, w), b, site(w), case=[str(c)[:200] for c in (v[1]['case'] if v else [])][-40:], left_when=str(L.done)[:600])
                        bad.pop(w)
                if not bad: break
            why.update(bad)
        for w, b in why.items(): R.undecided('%s:%s' % (o, w), b)
        R.ok('loops/' + o, '%d loops: %s' % (total, ', '.join('%d by %s' % (x, k) for k, x in kinds.items())))
        n[o] = total
    R.cov['loops_ranked'] = n
    X.finish()
