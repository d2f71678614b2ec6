"""Compares the two sides of specification pairs.

A specification unit spec/<id>.cc holds pairs a_<name> / b_<name> (and an
optional precondition pre_<name>) over the same parameters.  a_ exercises the
repository through its interface, b_ states what must come out.  Both value
graphs are built over the same symbolic parameters and compared leaf by leaf."""
import re, sys, time
sys.setrecursionlimit(400000)
from node import *
import interp, equal
from interp import Interp, State, Unmodelled
from prog import AnalysisError


def options(path):
    """//@ name key=value ... lines of a specification unit."""
    out = {}
    for l in open(path):
        m = re.match(r'\s*//@\s*(\S+)(.*)', l)
        if m:
            d = out.setdefault(m.group(1), {})
            for kv in m.group(2).split():
                k, _, v = kv.partition('=')
                d[k] = v
    return out


def pair_names(P, unit):
    a = {}
    for k, f in P.funcs.items():
        if f.get('file') == unit and f['sqn'].startswith('vp::') and 'body' in f:
            n = f['sqn'].split('::')[-1]
            m = re.match(r'(a|b|pre)_(\w+)$', n)
            if m: a.setdefault(m.group(2), {})[m.group(1)] = k
    return {n: d for n, d in a.items() if 'a' in d and 'b' in d}


def bind_symbolic(I, f, st):
    av = []
    for p in f['ps']:
        T = p['t']
        nm = re.sub(r'__\d+$', '', p['n'])
        if T.sort == 'ref':
            st.mem['p:' + p['n']] = I.symbolic(T.e, nm)
            av.append(LV('p:' + p['n']))
        else: av.append(I.symbolic(T, nm))
    return av


def run_fn(I, key, pre=TRUE):
    f = I.P.funcs[key]
    st = State()
    I.assume(st, pre, pc=False)
    av = bind_symbolic(I, f, st)
    r = I.invoke(key, None, av, st, {'t': f['ret'], 'ln': f['ln']})
    if isinstance(r, (LV, LVite)): r = I.load(st, r)
    out = [('return', r)]
    for p in f['ps']:
        if p['t'].sort == 'ref' and not p['t'].e.c: out.append((p['n'], st.mem['p:' + p['n']]))
    return r, rec('out', [n for n, _ in out], [v for _, v in out])


class Outcome:
    def __init__(self, name):
        self.name = name; self.leaves = 0; self.how = {}; self.diffs = []; self.unknown = []
        self.error = None; self.t = 0; self.cases = 0


def ieee_pred(spec):
    if not spec: return ()
    pats = [re.compile(x.replace('*', '.*') + '$') for x in spec.split(',')]
    return lambda n: n != "PI" and any(p.match(n) for p in pats)


def tags(nodes):
    """Highest value of every symbol that selects a variant alternative or the
    class of an owned object."""
    out = {}

    def go(v):
        if v.op == 'uptr' and v.a[1].op == 'sym': out[v.a[1].a[0]] = len(v.a[0])
        if v.op == 'var' and v.a[0].op == 'sym': out[v.a[0].a[0]] = len(v.a) - 2
        for x in v.a:
            if isinstance(x, Node) and x.sort not in SCAL: go(x)
    for n in nodes: go(n)
    return out


def compare_pair(P, name, d, opt, thorough=False):
    o = Outcome(name)
    t0 = time.time()
    I = Interp(P)
    o.interp = I
    try:
        pre = TRUE
        st = State()
        bind_symbolic(I, P.funcs[d['a']], st)
        tg = tags([v for v in st.mem.values()] + [v for v in bind_symbolic(I, P.funcs[d['a']], st) if isinstance(v, Node)])
        if 'pre' in d: pre, _ = run_fn(I, d['pre'])
        I.prov.clear()
        _, va = run_fn(I, d['a'], pre)
        nprov = len(I.prov)
        _, vb = run_fn(I, d['b'], pre)
    except (Unmodelled, KeyError) as e:
        o.error = '%s: %s' % (type(e).__name__, e)
        o.t = time.time() - t0
        return o
    D = equal.Decider(tags=tg.get, ieee=ieee_pred(opt.get('ieee')), K=int(opt.get('K', 4 if thorough else 3)),
                      budget=int(opt.get('budget', 20000)) * (4 if thorough else 1),
                      tlimit=float(opt.get('t', 60)) * (4 if thorough else 1))
    la, lb = [], []
    equal.leaves(va, (), la); equal.leaves(vb, (), lb)
    da, db = dict((equal.pkey(p), x) for p, x in la), dict((equal.pkey(p), x) for p, x in lb)
    if set(da) != set(db):
        o.error = 'shape mismatch: %s' % sorted(set(da) ^ set(db))[:6]
        return o
    ign = opt.get('ignore')
    ign = [re.compile(x) for x in ign.split(',')] if ign else []
    todo = []
    for k in da:
        if any(r.search(k) for r in ign): continue
        o.leaves += 1
        # values of an empty optional / inactive alternative do not exist
        todo.append((k, db[k], da[k], guard(k, da, db)))
    for k, r in equal.check_many(D, todo, pre).items():
        if r[0] == 'eq': o.how[r[1]] = o.how.get(r[1], 0) + 1
        elif r[0] == 'diff': o.diffs.append((k, r[1], da[k], db[k]))
        else: o.unknown.append((k, r[1]))
    o.cases = D.cases
    o.t = time.time() - t0
    return o


def guard(k, da, db):
    """Leaves below an optional, a variant alternative or an owned object
    matter only when that part exists (on the reference side)."""
    g = TRUE
    for m in re.finditer(r'\.o(?=[.\[]|$)', k):
        h = db.get(k[:m.start()] + '.oh')
        if h is not None: g = and_(g, h)
    for m in re.finditer(r'\.v:(\d+)', k):
        h = db.get(k[:m.start()] + '.vt')
        if h is not None: g = and_(g, eq(h, num(int(m.group(1)), 'i')))
    for m in re.finditer(r'\.u:([A-Za-z_:0-9]+)', k):
        # owned object of one concrete class
        h = db.get(k[:m.start()] + '.ut')
        if h is not None:
            names = sorted({re.match(r'\.u:([A-Za-z_:0-9]+)', q[m.start():]).group(1) for q in db
                            if q.startswith(k[:m.start()] + '.u:')})
            g = and_(g, eq(h, num(1 + names.index(m.group(1)), 'i')))
    return g
