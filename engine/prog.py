"""Loads the type-checked program exported by tool/inkdump for every library
translation unit of the repository (plus specification units)."""
import json, os, re, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('INK_REPO', '/repo')
FLAGS = ['-std=c++20', '-fno-access-control', '-w', '-I' + VERIF + '/overlay', '-I' + REPO]


class AnalysisError(Exception):
    """The analysis cannot run (parse failure, vanished anchor)."""


def strip_targs(s):
    """Removes template argument lists from a qualified name."""
    out, d, i = [], 0, 0
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or s[i - 1] == ':'):
            # keep operator tokens verbatim
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)', s[i:])
            if m and d == 0:
                out.append(m.group(0)); i += len(m.group(0)); continue
        c = s[i]
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)


class Type:
    __slots__ = ('k', 'n', 'e', 'u', 'b', 'c', 's', 'rv', 'len', 'sort', 'targs', 'tmpl', 'rec', 'cls')

    def __repr__(self): return self.s


SEQ_T = {'std::vector', 'std::deque', 'std::initializer_list', 'std::span', 'absl::InlinedVector', 'absl::Span',
         'std::list'}
ITER_T = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator'}


class Program:
    def __init__(self):
        self.funcs = {}
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.types = {}
        self.tus = []
        self.derived = {}
        self.spec_errors = {}

    # ------------------------------------------------------------------ build
    @staticmethod
    def repo_units():
        out = []
        for d, _, fs in os.walk(REPO + '/ink_stroke_modeler'):
            for f in sorted(fs):
                if f.endswith('.cc') and not f.endswith('_test.cc') and f != 'type_matchers.cc':
                    out.append(os.path.join(d, f))
        return sorted(out)

    @staticmethod
    def tool():
        t = VERIF + '/tool/inkdump'
        if not os.path.exists(t):
            r = subprocess.run(['bash', VERIF + '/tool/build.sh'], capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(t):
                raise AnalysisError('exporter build failed: ' + r.stderr[-2000:])
        return t

    @classmethod
    def load(cls, specs=()):
        p = cls()
        tool = cls.tool()
        units = cls.repo_units()
        if len(units) < 5:
            raise AnalysisError('repository units missing: %r' % units)
        tmp = tempfile.mkdtemp(prefix='inkdump')
        try:
            jobs = [(u, i) for i, u in enumerate(list(units) + list(specs))]

            def one(j):
                u, i = j
                out = '%s/%d.json' % (tmp, i)
                roots = REPO + '/ink_stroke_modeler/,' + VERIF + '/spec/'
                r = subprocess.run([tool, out, u, roots, '--'] + FLAGS, capture_output=True, text=True)
                if r.returncode != 0 or not os.path.exists(out):
                    if u in specs:
                        p.spec_errors[u] = r.stderr[-3000:]
                        return None
                    raise AnalysisError('parse failed for %s:\n%s' % (u, r.stderr[-3000:]))
                return out
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(one, jobs))
            for (u, i), o in zip(jobs, outs):
                if o is None: continue
                with open(o) as f:
                    p.add(json.load(f), u)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        p.finish()
        return p

    def add(self, d, unit):
        self.tus.append(unit)
        tt = d['types']
        table = [None] * len(tt)
        for i, t in enumerate(tt):
            table[i] = self.intern(t, tt, table)

        def fix(x):
            # replace type ids by Type objects
            if isinstance(x, list):
                for y in x: fix(y)
            elif isinstance(x, dict):
                for k in ('t', 'ct', 'at', 'ret', 'ft', 'pc', 'base'):
                    if k in x and isinstance(x[k], int) and not isinstance(x[k], bool): x[k] = table[x[k]]
                if 'cls' in x and isinstance(x['cls'], int): x['cls'] = table[x['cls']]
                if 'targs' in x: x['targs'] = [table[a] if isinstance(a, int) else a for a in x['targs']]
                if 'ps' in x and x['ps'] and isinstance(x['ps'][0], int): x['ps'] = [table[a] for a in x['ps']]
                if 'bases' in x: x['bases'] = [table[a] for a in x['bases']]
                for k, y in x.items():
                    if k == 'f' and isinstance(y, dict) and 'qn' in y:
                        y['sqn'] = strip_targs(y['qn'])
                    if isinstance(y, (list, dict)): fix(y)
        fix(d['funcs']); fix(d['recs']); fix(d['globals'])
        # declaration ids are per unit: prefix
        tag = len(self.tus)

        def ids(x):
            if isinstance(x, list):
                for y in x: ids(y)
            elif isinstance(x, dict):
                if 'd' in x and isinstance(x['d'], int): x['d'] = (tag, x['d'])
                for y in x.values():
                    if isinstance(y, (list, dict)): ids(y)
        ids(d['funcs']); ids(d['globals']); ids(d['recs'])
        for k, v in d['funcs'].items():
            v['key'] = k
            v['sqn'] = strip_targs(v['qn'])
            o = self.funcs.get(k)
            if o is None or ('body' not in o and 'body' in v): self.funcs[k] = v
        for k, v in d['recs'].items():
            o = self.recs.get(k)
            if o is None or ('fields' not in o and 'fields' in v): self.recs[k] = v
        self.enums.update(d['enums'])
        for k, v in d['globals'].items():
            if v is None: continue
            o = self.globals.get(k)
            if o is None or ('init' not in o and 'init' in v): self.globals[k] = v

    def intern(self, t, tt, table):
        def sub(i):
            if table[i] is None: table[i] = self.intern(tt[i], tt, table)
            return table[i]
        key = t['k'] + '|' + (t.get('n') if isinstance(t.get('n'), str) else '') + '|' + t.get('s', '')
        if key in self.types: return self.types[key]
        T = Type()
        T.k = t['k']; T.s = t.get('s', ''); T.c = t.get('c', False)
        T.n = t.get('n'); T.u = t.get('u', False); T.b = t.get('b', 0); T.rv = t.get('rv', False)
        T.e = None; T.len = None; T.sort = None; T.targs = None; T.tmpl = None; T.rec = None; T.cls = None
        self.types[key] = T
        if 'e' in t: T.e = sub(t['e'])
        if T.k == 'arr': T.len = t['n']
        return T

    def finish(self):
        for r in self.recs.values():
            r['stmpl'] = strip_targs(r['tmpl']) if r.get('tmpl') else None
            for b in r.get('bases', ()):
                self.derived.setdefault(b.n, [])
        for k, r in self.recs.items():
            for b in r.get('bases', ()): self.derived.setdefault(b.n, []).append(k)
        # method override map: (base method key) -> {class: method key}
        self.overr = {}
        for k, r in self.recs.items():
            for m in r.get('methods', ()):
                for o in m['over']:
                    self.overr.setdefault(o, {})[k] = m['key']
        for T in list(self.types.values()): self.classify(T)
        self.by_qn = {}
        for k, f in self.funcs.items():
            self.by_qn.setdefault(f['sqn'], []).append(k)

    def classify(self, T):
        if T.sort: return T.sort
        k = T.k
        if k == 'bool': T.sort = 'b'
        elif k in ('int', 'enum'): T.sort = 'i'
        elif k == 'flt': T.sort = 'f'
        elif k == 'ref': T.sort = 'ref'
        elif k == 'ptr':
            T.sort = 'str' if T.e.k == 'int' and T.e.b == 8 else 'ptr'
        elif k == 'null': T.sort = 'ptr'
        elif k == 'arr':
            T.sort = 'str' if T.e.k == 'int' and T.e.b == 8 else 'arr'
        elif k == 'void': T.sort = 'unit'
        elif k == 'rec':
            r = self.recs.get(T.n)
            T.rec = r
            T.sort = 'opaque'
            if r:
                q = r['stmpl'] or r['qn']
                T.tmpl = q
                T.targs = r.get('targs')
                q2 = strip_targs(q)
                if q2 == 'std::optional': T.sort = 'opt'
                elif q2 in SEQ_T: T.sort = 'seq'
                elif q2 == 'std::array': T.sort = 'arr'; T.e = T.targs[0]; T.len = T.targs[1]['v']
                elif q2 == 'std::variant': T.sort = 'var'
                elif q2 in ('std::unique_ptr', 'std::shared_ptr'): T.sort = 'uptr'
                elif q2 in ('std::pair', 'std::tuple'): T.sort = 'rec'
                elif q2 == 'absl::Status': T.sort = 'rec'
                elif q2 == 'absl::StatusOr': T.sort = 'rec'
                elif q2 in ITER_T: T.sort = 'iter'
                elif q2 == 'std::reverse_iterator': T.sort = 'riter'
                elif q2 == 'std::back_insert_iterator': T.sort = 'bins'
                elif q2 in ('std::basic_string', 'absl::string_view', 'std::basic_string_view', 'std::basic_ostream',
                            'absl::AlphaNum', 'std::allocator', 'std::basic_ostringstream', 'std::basic_stringstream',
                            'std::locale'): T.sort = 'str'
                elif r.get('lambda'): T.sort = 'clo'
                elif q2 == 'std::function': T.sort = 'clo'
                elif q2 in ('std::nullopt_t', 'std::in_place_t', 'std::monostate', 'std::piecewise_construct_t',
                            'std::in_place_type_t', 'std::in_place_index_t'): T.sort = 'unit'
                elif r.get('own') and not r.get('union'): T.sort = 'rec'
                elif q2 in ('std::plus', 'std::minus', 'std::multiplies', 'std::less', 'std::greater', 'std::identity'): T.sort = 'unit'
        else: T.sort = 'opaque'
        return T.sort

    # fields of an own record, bases flattened first
    def fields(self, name):
        r = self.recs[name]
        out = []
        for b in r.get('bases', ()):
            if b.n in self.recs and self.recs[b.n].get('fields') is not None: out += self.fields(b.n)
        out += r['fields']
        return out

    def concrete(self, base):
        """Concrete classes an owning pointer to `base` may hold."""
        out = []
        def go(c):
            r = self.recs.get(c)
            if r is None: return
            if not r.get('abstract'): out.append(c)
            for d in self.derived.get(c, ()): go(d)
        go(base)
        return tuple(sorted(set(out)))

    def find(self, qn, pred=None, n=None):
        ks = [k for k in self.by_qn.get(qn, ()) if 'body' in self.funcs[k] and not self.funcs[k].get('defaulted')]
        if pred: ks = [k for k in ks if pred(self.funcs[k])]
        if n is not None: ks = [k for k in ks if len(self.funcs[k]['ps']) == n]
        if not ks: raise AnalysisError('anchor not found: ' + qn)
        return ks

    def fn(self, qn, pred=None, n=None):
        ks = self.find(qn, pred, n)
        if len(ks) > 1: raise AnalysisError('anchor ambiguous: %s %r' % (qn, ks))
        return ks[0]
