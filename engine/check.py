#!/usr/bin/env python3
"""Decides one property from the source of the repository.

  python3 engine/check.py <id> [quick|thorough]

Exit 0: every obligation holds (or is undecided, which the evidence says).
Exit 1: a VIOLATION line names the report; it lists the constructs involved."""
import sys, os, json, time, glob, re, traceback
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000)
import prog, pairs
from prog import Program, AnalysisError, VERIF, REPO
from node import Node

EVID = os.environ.get('VP_EVIDENCE', VERIF + '/evidence')


class Report:
    """What a check established."""

    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obs = []          # (name, status, detail)
        self.cov = {}          # further counts
        self.notes = []
        self.viol = []         # dicts: key, message, sites
        self.funcs = set()

    def ok(self, name, how=''): self.obs.append((name, 'holds', how))

    def undecided(self, name, why): self.obs.append((name, 'undecided', why))

    def bad(self, name, message, sites, **kw):
        self.obs.append((name, 'violated', message))
        self.viol.append(dict(key=name, message=message, sites=sites, **kw))


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


def rel2(f):
    # file of a function as a repository path
    f = f or '?'
    return rel(f)


def blame(I, x, ref):
    """Constructs in the value x that the reference value does not have."""
    seen = set()
    work = [ref]
    while work:
        n = work.pop()
        if n.id in seen: continue
        seen.add(n.id)
        for y in n.a:
            if isinstance(y, Node): work.append(y)
            elif hasattr(y, 'mus'):
                for m, i, nx in y.mus: work += [i, nx]
                work.append(y.done)
    sites, done = {}, set()

    def walk(n, d):
        if n.id in seen or n.id in done or d > 400: return False
        done.add(n.id)
        kids = []
        for y in n.a:
            if isinstance(y, Node): kids.append(y)
            elif hasattr(y, 'mus'):
                for m, i, nx in y.mus: kids += [i, nx]
                kids.append(y.done)
        hit = False
        for y in kids: hit = walk(y, d + 1) or hit
        p = I.prov.get(n.id)
        if p and p[0] is not None and not (p[0].get('file') or '').startswith(VERIF):
            k = (rel2(p[0].get('file')), p[1], p[0]['qn'])
            if not hit or k in sites: sites[k] = sites.get(k, 0) + 1
            return True
        return hit
    walk(x, 0)
    return [{'file': k[0], 'line': k[1], 'function': k[2]} for k, _ in sorted(sites.items(), key=lambda z: -z[1])[:12]]


def baseline_fields():
    p = VERIF + '/spec/fields.json'
    return json.load(open(p)) if os.path.exists(p) else None


def novel_fields(P):
    """Data members that did not exist when the specifications were written.
    A symbolic initial state gives them arbitrary values, so a difference that
    hinges on them says nothing."""
    base = baseline_fields()
    out = set()
    if base is None: return out
    for q, r in P.recs.items():
        if 'ink::stroke_model' not in q: continue
        for f in r.get('fields', ()):
            nm = re.sub(r'<.*', '', q.replace(REPO + '/', ''))
            if f['n'] not in base.get(nm, ()): out.add(f['n'])
    return out


def syms(n):
    out, seen, work = set(), set(), [n]
    while work:
        x = work.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ('sym', 'sseq'): out.add(x.a[0])
        if x.op == 'at': out.add('.'.join(str(q) for p in x.a[2] for q in (p if isinstance(p, tuple) else (p,))))
        for y in x.a:
            if isinstance(y, Node): work.append(y)
            elif hasattr(y, 'mus'):
                for m, i, nx in y.mus: work += [i, nx]
                work.append(y.done)
    return out


def hinges(novel, key, *vals):
    if not novel: return False
    pat = re.compile(r'(^|[.\[\]:])(%s)($|[.\[\]:])' % '|'.join(re.escape(x) for x in novel))
    if pat.search(key): return True
    return any(pat.search(s) for v in vals for s in syms(v))


_P = None


def _run_pair(job):
    unit, name, opt, thorough = job
    P = _P
    d = pairs.pair_names(P, unit)[name]
    base = os.path.basename(unit)[:-3]
    res = {'name': '%s/%s' % (base, name), 'leaves': 0, 'how': {}, 'cases': 0, 'diffs': [], 'unknown': [], 'error': None,
           'funcs': [], 'unk': [], 'loops': 0, 't': 0}
    try:
        o = pairs.compare_pair(P, name, d, opt, thorough)
    except (RecursionError, MemoryError) as e:
        res['error'] = type(e).__name__
        return res
    except Exception as e:
        res['error'] = 'internal: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip()
        res['trace'] = traceback.format_exc()[-1500:]
        return res
    nov = novel_fields(P)
    I = o.interp
    res.update(leaves=o.leaves, how=o.how, cases=o.cases, unknown=[(k, str(w)[:200]) for k, w in o.unknown], error=o.error,
               loops=len(I.loops), t=round(o.t, 2), unk=[str(u) for u in I.unk[:8]])
    res['funcs'] = sorted(k for k in I.funcs_seen if not (P.funcs[k].get('file') or '').startswith(VERIF))
    for k, info, a, b in o.diffs:
        if hinges(nov, k, a, b):
            res['unknown'].append((k, 'hinges on a data member unknown to the specification'))
            continue
        res['diffs'].append({'leaf': k, 'case': [str(c)[:200] for c in info['case']][-40:], 'expected': str(info['reference'])[:1500],
                             'found': str(info['actual'])[:1500], 'sites': blame(I, a, b)})
    return res


def run_pairs(R, P, units, thorough, only=None):
    global _P
    _P = P
    jobs = []
    for u in units:
        base = os.path.basename(u)[:-3]
        if u in P.spec_errors:
            R.undecided(base, 'specification unit does not fit the current interfaces: ' + P.spec_errors[u].strip()[:400])
            continue
        op = pairs.options(u)
        for n in sorted(pairs.pair_names(P, u)):
            o = dict(op.get('*', {}), **op.get(n, {}))
            if o.get('tier') == 'thorough' and not thorough: continue
            if only and n not in only: continue
            jobs.append((u, n, o, thorough))
    if not jobs: return
    if len(jobs) == 1: results = [_run_pair(jobs[0])]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(_run_pair, jobs, chunksize=1)
    leaves = cases = loops = 0
    how = {}
    for r in results:
        leaves += r['leaves']; cases += r['cases']; loops += r['loops']
        R.funcs.update(r['funcs'])
        for k, v in r['how'].items(): how[k] = how.get(k, 0) + v
        if r['error']: R.undecided(r['name'], r['error']); continue
        for d in r['diffs']:
            R.bad('%s:%s' % (r['name'], d['leaf']), 'the code computes a different value than the property requires', d['sites'],
                  case=d['case'], expected=d['expected'], found=d['found'])
        for k, w in r['unknown']: R.undecided('%s:%s' % (r['name'], k), w + (' ' + '; '.join(r['unk'][:2]) if r['unk'] else ''))
        if not r['diffs'] and not r['unknown']:
            R.ok(r['name'], ', '.join('%s %d' % kv for kv in sorted(r['how'].items())))
    c = R.cov
    c['pairs'] = c.get('pairs', 0) + len(jobs)
    c['values_compared'] = c.get('values_compared', 0) + leaves
    c['cases_distinguished'] = c.get('cases_distinguished', 0) + cases
    c['loops_summarised'] = c.get('loops_summarised', 0) + loops
    h = c.setdefault('decided_by', {})
    for k, v in how.items(): h[k] = h.get(k, 0) + v


def known():
    out = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    t0 = time.time()
    import props
    spec = props.PROPS[pid]
    R = Report(pid, tier)
    units = sorted(x for x in glob.glob(VERIF + '/spec/%s*.cc' % pid) if re.match(re.escape(pid) + r'[a-z]?\.cc$', os.path.basename(x)))
    try:
        P = Program.load(units)
    except AnalysisError as e:
        print('cannot analyse the repository: %s' % e)
        return 2
    run_pairs(R, P, units, thorough)
    for name, fn in spec.get('analyses', ()):
        try:
            fn(P, R, thorough)
        except Exception as e:
            if os.environ.get('VP_DEBUG'): raise
            R.undecided(name, 'internal: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip()[:300])
    kf = known()
    vio = []
    for v in R.viol:
        k = (pid, v['key'])
        if k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
        else: vio.append(v)
    os.makedirs(EVID, exist_ok=True)
    cov = {
        'explanation': spec['explanation'],
        'units_parsed': len(P.tus),
        'functions_in_program': sum(1 for f in P.funcs.values() if f.get('body') and rel2(f.get('file')).startswith('ink_stroke_modeler/')),
        'functions_analysed': sorted({P.funcs[k]['qn'] for k in R.funcs if rel2(P.funcs[k].get('file')).startswith('ink_stroke_modeler/')}),
        'obligations': len(R.obs),
        'discharged': sum(1 for o in R.obs if o[1] == 'holds'),
        'undecided': [{'obligation': o[0], 'why': o[2]} for o in R.obs if o[1] == 'undecided'][:60],
        'samples': [{'obligation': o[0], 'status': o[1], 'how': o[2]} for o in R.obs][:40],
        'violations_found': vio,
    }
    cov.update(R.cov)
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'other'),
          'coverage': cov, 'assumptions': props.ASSUME + spec.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(vio)}
    path = '%s/%s.json' % (EVID, pid)
    json.dump(ev, open(path, 'w'), indent=1, default=str)
    n = cov['undecided']
    print('%s %s: %d obligations, %d hold, %d undecided, %d violated, %.1fs' % (pid, tier, len(R.obs), cov['discharged'], len(n), len(vio), time.time() - t0))
    for u in n[:6]: print('  undecided', u['obligation'], '-', u['why'][:160])
    if vio:
        rp = '%s/%s.violation.json' % (EVID, pid)
        json.dump(vio, open(rp, 'w'), indent=1, default=str)
        for v in vio[:8]:
            print('  violated %s: %s' % (v['key'], v['message']))
            for s in v['sites'][:4]: print('    at %s:%s in %s' % (s.get('file'), s.get('line'), s.get('function')))
            if v.get('case'): print('    when ' + ' and '.join(v['case'][-6:])[:400])
            if 'expected' in v: print('    expected %s\n    found    %s' % (v['expected'][:240], v['found'][:240]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, VERIF) if rp.startswith(VERIF) else rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
