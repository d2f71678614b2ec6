"""Meaning of the standard-library and abseil operations the code uses."""
from node import *
import node as N

CODES = {'OkStatus': 0, 'CancelledError': 1, 'UnknownError': 2, 'InvalidArgumentError': 3, 'DeadlineExceededError': 4,
         'NotFoundError': 5, 'AlreadyExistsError': 6, 'PermissionDeniedError': 7, 'ResourceExhaustedError': 8,
         'FailedPreconditionError': 9, 'AbortedError': 10, 'OutOfRangeError': 11, 'UnimplementedError': 12,
         'InternalError': 13, 'UnavailableError': 14, 'DataLossError': 15, 'UnauthenticatedError': 16}
UNINT = {'acos', 'asin', 'atan', 'atan2', 'sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'ceil', 'floor', 'round',
         'trunc', 'fmod', 'remainder', 'cbrt', 'exp2', 'nearbyint', 'rint', 'tanh', 'sinh', 'cosh', 'expm1', 'log1p',
         'copysign', 'nextafter'}
SUF = {}
for _n in list(UNINT) + ['sqrt', 'fabs', 'abs', 'pow', 'hypot', 'fmin', 'fmax', 'fma', 'isnan', 'isinf', 'isfinite', 'signbit', 'fdim']:
    SUF[_n] = _n; SUF[_n + 'f'] = _n; SUF['__builtin_' + _n] = _n; SUF['__builtin_' + _n + 'f'] = _n
I0 = num(0, 'i')
I1 = num(1, 'i')


def fabs(x):
    return ite(lt(x, num(0, x.sort)), neg(x), x)


def sqrt(x):
    if isnum(x):
        from math import isqrt
        a, b = x.a[0].numerator, x.a[0].denominator
        if a >= 0 and isqrt(a) ** 2 == a and isqrt(b) ** 2 == b: return num(Fraction(isqrt(a), isqrt(b)))
    return fn('sqrt', x)


class Lib:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------ values
    def default(self, T, st, e):
        s = T.sort
        I = self.I
        if s == 'opt': return opt(FALSE, I.absent(T.targs[0]))
        if s == 'var':
            alts = I.alts(T)
            return var(I0, [I.default(alts[0], st, e or {}, True)] + [I.absent(t) for t in alts[1:]])
        if s == 'uptr':
            cs = I.uclasses(T)
            return uptr(cs, I0, [I.absent(I.rectype(c)) for c in cs])
        if s == 'seq': return EMPTY
        return I.zero(T)

    def copied(self, v, T): return v

    def null(self, T):
        cs = self.I.uclasses(T)
        return uptr(cs, I0, [self.I.absent(self.I.rectype(c)) for c in cs])

    def retag(self, u, T):
        """unique_ptr<Derived> -> unique_ptr<Base>"""
        cs = self.I.uclasses(T)
        if u.op != 'uptr': return opq('uptr', sort='uptr')
        if u.a[0] == cs: return u
        tag = I0
        pays = {c: self.I.absent(self.I.rectype(c)) for c in cs}
        for i, c in enumerate(u.a[0]):
            if c in cs:
                tag = ite(eq(u.a[1], num(i + 1, 'i')), num(cs.index(c) + 1, 'i'), tag)
                pays[c] = u.a[2 + i]
        return uptr(cs, tag, [pays[c] for c in cs])

    def deep_eq(self, a, b):
        if a is b and a.sort != 'f' and a.op not in N.AGG: return TRUE
        o = a.op
        if o == 'rec' and b.op == 'rec':
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]): r = and_(r, self.deep_eq(x, y))
            return r
        if o == 'arr' and b.op == 'arr':
            r = TRUE
            for x, y in zip(a.a, b.a): r = and_(r, self.deep_eq(x, y))
            return r
        if o == 'opt' and b.op == 'opt':
            return ite(and_(a.a[0], b.a[0]), self.deep_eq(a.a[1], b.a[1]), eq(a.a[0], b.a[0]))
        if o == 'var' and b.op == 'var':
            r = TRUE
            for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])): r = ite(eq(a.a[0], num(i, 'i')), self.deep_eq(x, y), r)
            return and_(eq(a.a[0], b.a[0]), r)
        if a.sort in N.SCAL and b.sort in N.SCAL: return eq(a, b)
        if a.sort == 'unit': return TRUE
        return opq('eq', a, b, sort='b')

    # ------------------------------------------------------------ constructors
    def construct(self, e, f, T, st, env):
        I = self.I
        s = T.sort
        A = e['args']
        A = [a for a in A if not (a['t'].sort == 'str' and s != 'str' and T.tmpl != 'absl::Status')]
        if s == 'opt':
            if not A: return opt(FALSE, I.absent(T.targs[0]))
            a = A[0]
            at = I.deref(a['t'])
            if at.sort == 'unit' and at.tmpl == 'std::nullopt_t': return opt(FALSE, I.absent(T.targs[0]))
            v = I.rval(a, st, env)
            if at.sort == 'opt' and T.targs[0].sort != 'opt':
                return opt(v.a[0], self.to(v.a[1], T.targs[0], st, e)) if v.op == 'opt' else v
            return opt(TRUE, self.to(v, T.targs[0], st, e))
        if s == 'seq':
            if not A: return EMPTY
            at = I.deref(A[0]['t'])
            if at.sort == 'seq': return I.rval(A[0], st, env)
            if at.sort == 'iter' and len(A) >= 2:
                a, b = I.rval(A[0], st, env), I.rval(A[1], st, env)
                lv = I.temp(st, EMPTY)
                self.append_range(lv, a, b, A[0], st, e)
                return st.mem[lv.root]
            if at.sort == 'i':
                n = I.rval(A[0], st, env)
                v = I.rval(A[1], st, env) if len(A) > 1 and I.deref(A[1]['t']).sort == T.targs[0].sort else I.default(T.targs[0], st, e, True)
                if isnum(n) and n.a[0] <= 64:
                    r = EMPTY
                    for _ in range(int(n.a[0])): r = push(r, v)
                    return r
                if isinstance(v, Node): return mk('fill', n, v, sort='seq')
            return None
        if s == 'var':
            if not A: return self.default(T, st, e)
            at = I.deref(A[0]['t'])
            alts = I.alts(T)
            if at.sort == 'unit' and (at.tmpl or '').startswith('std::in_place'): return None
            return self.tovar(I.rval(A[0], st, env), at, T, st, e)
        if s == 'uptr':
            if not A: return self.null(T)
            a = A[0]
            at = I.deref(a['t'])
            if at.sort == 'uptr':
                u = self.retag(I.rval(a, st, env), T)
                # move: the source is left empty
                if a['vc'] == 'x' and self.is_move(a): self.clear_uptr(a, st, env)
                return u
            if at.k == 'null' or (a['k'] in ('Null',)): return self.null(T)
            return None
        if s == 'str':
            return STR
        if s == 'unit': return UNIT
        if s == 'rec':
            q = T.tmpl
            if q == 'absl::Status':
                if not A: return self.status(I0)
                at = I.deref(A[0]['t'])
                if at.tmpl == 'absl::Status': return I.rval(A[0], st, env)
                if at.sort == 'i': return self.status(I.rval(A[0], st, env))
                return None
            if q == 'absl::StatusOr':
                if not A: return rec('absl::StatusOr', ('code', 'val'), [num(2, 'i'), I.absent(T.targs[0])])
                at = I.deref(A[0]['t'])
                v = I.rval(A[0], st, env)
                if at.tmpl == 'absl::Status':
                    return rec('absl::StatusOr', ('code', 'val'), [rec_get(v, 'code'), I.absent(T.targs[0])])
                if at.tmpl == 'absl::StatusOr': return v
                return rec('absl::StatusOr', ('code', 'val'), [I0, self.to(v, T.targs[0], st, e)])
            if q == 'std::pair':
                if not A: return rec('std::pair', ('first', 'second'), [I.default(t, st, e, True) for t in T.targs[:2]])
                if len(A) == 2:
                    return rec('std::pair', ('first', 'second'),
                               [self.to(I.rval(a, st, env), t, st, e) for a, t in zip(A, T.targs)])
                if len(A) == 1:
                    v = I.rval(A[0], st, env)
                    if v.op == 'rec' and v.a[0] == 'std::pair': return v
            if q == 'std::tuple':
                ts = I.flat(T.targs)
                if len(A) == len(ts):
                    return rec('std::tuple', ['t%d' % i for i in range(len(ts))],
                               [self.to(I.rval(a, st, env), t, st, e) for a, t in zip(A, ts)])
            return None
        if s == 'arr':
            return arr([I.default(T.e, st, e, bool(e.get('zi'))) for _ in range(int(T.len))])
        if s == 'iter':
            if len(A) == 1: return I.rval(A[0], st, env)
        if s == 'bins' and len(A) == 1: return I.rval(A[0], st, env)
        if s == 'clo' and len(A) == 1: return I.rval(A[0], st, env)
        return None

    def is_move(self, a):
        x = a
        while x['k'] in ('Cast', 'Mat'): x = x['e']
        return x['k'] in ('Call', 'MCall') and x['f'].get('sqn') in ('std::move', 'std::forward')

    def clear_uptr(self, a, st, env):
        I = self.I
        x = a
        while x['k'] in ('Cast', 'Mat'): x = x['e']
        y = x['args'][0]
        lv = I.lval(y, st, env)
        I.store(st, lv, self.null(I.deref(y['t'])))

    def status(self, code): return rec('absl::Status', ('code',), [code])

    def to(self, v, T, st, e):
        """Implicit conversion of a value to T."""
        if isinstance(v, (LV, LVite)): v = self.I.load(st, v, T)
        if T.sort in N.SCAL and v.sort in N.SCAL: return self.I.conv(v, T, st, e)
        if T.sort == 'uptr' and v.op == 'uptr': return self.retag(v, T)
        if T.sort == 'var' and v.op != 'var':
            for i, t in enumerate(self.I.alts(T)):
                if v.op == 'rec' and t.n == v.a[0]: return self.tovar(v, t, T, st, e)
        if T.sort == 'opt' and v.op != 'opt': return opt(TRUE, self.to(v, T.targs[0], st, e))
        return v

    def tovar(self, v, at, T, st, e):
        I = self.I
        alts = I.alts(T)
        for i, t in enumerate(alts):
            if (t.k == 'rec' and v.op == 'rec' and t.n == v.a[0]) or (t.sort in N.SCAL and t.s == at.s.replace('const ', '')):
                return var(num(i, 'i'), [v if j == i else I.absent(u) for j, u in enumerate(alts)])
        return opq('variant', sort='var')

    # ------------------------------------------------------------ methods
    def mcall(self, e, f, st, env):
        I = self.I
        o = e['o']
        ot = o['t']
        n = f['n']
        if e.get('arrow'):
            obj = I.ptr_target(I.rval(o, st, env), st, e)
            T = ot.e if ot.sort == 'ptr' else ot
        else:
            obj = I.lval(o, st, env)
            T = I.deref(ot)
        A = e['args']
        h = getattr(self, 'm_' + T.sort, None)
        r = None
        if h is not None: r = h(n, obj, T, A, e, f, st, env)
        if r is None:
            I.extcalls.setdefault(f['sqn'], I.where(e))
            for a in A: I.effect(a, st, env)
            if not f.get('const') and T.sort not in ('str', 'unit'):
                I.store(st, obj, I.opaque('mutated by ' + f['qn'], e, T))
            if e['t'].sort in ('str', 'unit') and T.sort == 'str': return STR if e['t'].sort == 'str' else UNIT
            return I.opaque('call ' + f['qn'], e, I.deref(e['t']))
        return r

    def _lvp(self, p): return ptr(TRUE, p)

    def m_opt(self, n, o, T, A, e, f, st, env):
        I = self.I
        v = I.load(st, o, T)
        if n in ('has_value', 'operator bool'): return v.a[0] if v.op == 'opt' else opq('opt', sort='b')
        if n in ('operator*', 'value'):
            I.oblige('optional-deref', v.a[0], st, e)
            return o + ('o',)
        if n == 'operator->':
            I.oblige('optional-deref', v.a[0], st, e)
            return ptr(TRUE, o + ('o',))
        if n == 'reset':
            I.write(st, o, opt(FALSE, v.a[1]), e); return UNIT
        if n == 'operator=':
            at = I.deref(A[0]['t'])
            x = I.rval(A[0], st, env)
            if at.tmpl == 'std::nullopt_t': I.write(st, o, opt(FALSE, v.a[1]), e)
            elif x.op == 'opt': I.write(st, o, opt(x.a[0], self.to(x.a[1], T.targs[0], st, e)), e)
            else: I.write(st, o, opt(TRUE, self.to(x, T.targs[0], st, e)), e)
            return o
        if n == 'emplace':
            et = T.targs[0]
            if len(A) == 0: x = I.default(et, st, e, True)
            elif len(A) == 1 and self.same(I.deref(A[0]['t']), et): x = self.to(I.rval(A[0], st, env), et, st, e)
            else:
                x = self.emplace_value(et, A, st, env, e)
            if x is None: return None
            I.write(st, o, opt(TRUE, x), e)
            return o + ('o',)
        if n == 'value_or':
            d = I.rval(A[0], st, env)
            return ite(v.a[0], v.a[1], self.to(d, T.targs[0], st, e))
        if n == 'swap':
            b = I.lval(A[0], st, env)
            w = I.load(st, b, T)
            I.write(st, o, w, e); I.write(st, b, v, e)
            return UNIT
        return None

    def same(self, a, b): return a.sort == b.sort and (a.sort in N.SCAL or a.n == b.n)

    def emplace_value(self, et, A, st, env, e):
        """T(args...) for emplace: repository constructors, else aggregates."""
        I = self.I
        if et.sort in N.SCAL and len(A) == 1: return self.to(I.rval(A[0], st, env), et, st, e)
        if et.sort == 'rec' and et.rec and et.rec.get('own'):
            for m in et.rec.get('methods', ()):
                fd = I.P.funcs.get(m['key'])
                if fd and fd.get('ctor') and 'body' in fd and not fd.get('defaulted') and len(fd['ps']) == len(A):
                    return I.construct(et, {'key': m['key'], 'qn': fd['qn']},
                                       [lambda t, a=a: (I.lval(a, st, env) if t.sort == 'ref' else self.to(I.rval(a, st, env), t, st, e)) for a in A], st, e)
            fs = I.recfields(et)[1]
            if len(fs) == len(A):
                return rec(et.n, [x for x, _ in fs], [self.to(I.rval(a, st, env), t, st, e) for a, (_, t) in zip(A, fs)])
        return None

    def m_seq(self, n, o, T, A, e, f, st, env):
        I = self.I
        et = T.targs[0]
        s = I.load(st, o, T)
        idx = lambda i: o + ('i', i, et)
        if n == 'size': return size(s)
        if n == 'empty': return eq(size(s), I0)
        if n in ('push_back', 'emplace_back'):
            if len(A) == 1: v = self.to(I.rval(A[0], st, env), et, st, e)
            elif not A: v = I.default(et, st, e, True)
            else: v = self.emplace_value(et, A, st, env, e)
            if v is None: return None
            s = I.load(st, o, T)
            if isinstance(v, Node) and (v.sort != et.sort): return None
            I.write(st, o, push(s, v), e)
            return UNIT if n == 'push_back' else idx(size(s))
        if n == 'pop_front':
            I.oblige('pop-empty', lt(I0, size(s)), st, e)
            I.write(st, o, popf(s), e); return UNIT
        if n == 'pop_back':
            I.oblige('pop-empty', lt(I0, size(s)), st, e)
            I.write(st, o, popb(s), e); return UNIT
        if n == 'front':
            I.oblige('front-empty', lt(I0, size(s)), st, e)
            return idx(I0)
        if n == 'back':
            I.oblige('back-empty', lt(I0, size(s)), st, e)
            return idx(sub(size(s), I1))
        if n in ('operator[]', 'at'):
            i = I.rval(A[0], st, env)
            I.oblige('index', and_(not_(lt(i, I0)), lt(i, size(s))), st, e)
            return idx(i)
        if n == 'clear':
            I.write(st, o, EMPTY, e); return UNIT
        if n in ('begin', 'cbegin'): return iter_(o, I0)
        if n in ('end', 'cend'): return iter_(o, size(s))
        if n in ('rbegin', 'crbegin'): return mk('riter', o, size(s), sort='riter')
        if n in ('rend', 'crend'): return mk('riter', o, I0, sort='riter')
        if n in ('reserve', 'shrink_to_fit'):
            for a in A:
                v = I.rval(a, st, env)
                I.obl.append(('reserve', I.where(e), ('reserve', v), st.pc))
            return UNIT
        if n == 'operator=':
            v = I.rval(A[0], st, env)
            if v.sort != 'seq': return None
            I.write(st, o, v, e); return o
        if n == 'swap':
            b = I.lval(A[0], st, env)
            w = I.load(st, b, T)
            I.write(st, o, w, e); I.write(st, b, s, e)
            return UNIT
        if n == 'data': return ptr(TRUE, idx(I0))
        if n == 'erase':
            a = I.rval(A[0], st, env)
            if len(A) == 1 and a.op == 'iter' and a.a[1] is I0:
                I.oblige('pop-empty', lt(I0, size(s)), st, e)
                I.write(st, o, popf(s), e); return iter_(o, I0)
            if len(A) == 2 and a.op == 'iter' and a.a[1] is I0:
                b = I.rval(A[1], st, env)
                if b.op == 'iter' and isnum(b.a[1]) and b.a[1].a[0] < 16:
                    for _ in range(int(b.a[1].a[0])): s = popf(s)
                    I.write(st, o, s, e); return iter_(o, I0)
                if b.op == 'iter':
                    I.write(st, o, mk('drop', s, b.a[1], sort='seq'), e); return iter_(o, I0)
            return None
        if n == 'insert' and len(A) == 3:
            at = I.rval(A[0], st, env)
            if at.op == 'iter' and at.a[1] is size(s) and I.deref(A[1]['t']).sort == 'iter':
                self.append_range(o, I.rval(A[1], st, env), I.rval(A[2], st, env), A[1], st, e)
                return iter_(o, size(s))
        if n == 'insert' and len(A) == 2:
            at = I.rval(A[0], st, env)
            if at.op == 'iter' and at.a[1] is size(s):
                I.write(st, o, push(s, self.to(I.rval(A[1], st, env), et, st, e)), e)
                return iter_(o, size(s))
        if n == 'assign' and len(A) == 2 and I.deref(A[0]['t']).sort == 'iter':
            a, b = I.rval(A[0], st, env), I.rval(A[1], st, env)
            I.write(st, o, EMPTY, e)
            self.append_range(o, a, b, A[0], st, e)
            return UNIT
        if n == 'resize' and len(A) == 1:
            v = I.rval(A[0], st, env)
            if v is I0: I.write(st, o, EMPTY, e); return UNIT
            return None
        return None

    def append_range(self, lv, a, b, ax, st, e):
        I = self.I
        if a.op != 'iter' or b.op != 'iter' or a.a[0] != b.a[0]:
            I.store(st, lv, I.opaque('range', e, SEQ)); return
        src = I.load(st, a.a[0])
        if a.a[1] is I0 and b.a[1] is size(src) and I.load(st, lv) is EMPTY:
            I.store(st, lv, src); return
        it = I.temp(st, a)
        et = self.iter_elem(I.deref(ax['t']), ax)

        def once(s):
            c = lt(s.mem[it.root].a[1], b.a[1])

            def body(s):
                i = s.mem[it.root]
                I.store(s, lv, push(I.load(s, lv), I.load(s, i.a[0] + ('i', i.a[1], et))))
                s.mem[it.root] = iter_(i.a[0], add(i.a[1], I1))
                return {'N': (TRUE, s, None)}
            return I.branch(c, s, body, lambda x: {'X': (TRUE, x, None)})
        o = I.run_loop(once, st, e)
        st.mem = o['N'][1].mem

    def iter_elem(self, T, ax=None):
        # iterator element type from its template arguments
        for t in T.targs or ():
            if hasattr(t, 'sort'):
                if t.sort == 'ptr': return t.e
                return t
        return None

    def m_arr(self, n, o, T, A, e, f, st, env):
        I = self.I
        k = int(T.len)
        if n in ('size', 'max_size'): return num(k, 'i')
        if n == 'empty': return B(k == 0)
        if n in ('operator[]', 'at'):
            i = I.rval(A[0], st, env)
            I.oblige('index', and_(not_(lt(i, I0)), lt(i, num(k, 'i'))), st, e)
            return o + ('i', i)
        if n == 'front': return o + ('i', I0)
        if n == 'back': return o + ('i', num(k - 1, 'i'))
        if n in ('begin', 'cbegin', 'data'): return ptr(TRUE, o + ('i', I0))
        if n in ('end', 'cend'): return ptr(TRUE, o + ('i', num(k, 'i')))
        if n == 'fill':
            v = self.to(I.rval(A[0], st, env), T.e, st, e)
            I.write(st, o, arr([v] * k), e); return UNIT
        if n == 'operator=':
            I.write(st, o, I.rval(A[0], st, env), e); return o
        return None

    def m_uptr(self, n, o, T, A, e, f, st, env):
        I = self.I
        u = I.load(st, o, T)
        if u.op != 'uptr': return None
        nn = not_(eq(u.a[1], I0))
        if n in ('operator->', 'get'):
            if n == 'operator->': I.oblige('null-deref', nn, st, e)
            return ptr(nn, o + ('u*',))
        if n == 'operator*':
            I.oblige('null-deref', nn, st, e)
            return o + ('u*',)
        if n == 'operator bool': return nn
        if n == 'operator=':
            a = A[0]
            at = I.deref(a['t'])
            if at.sort == 'uptr':
                v = self.retag(I.rval(a, st, env), T)
                if a['vc'] == 'x' and self.is_move(a): self.clear_uptr(a, st, env)
                I.write(st, o, v, e)
            else: I.write(st, o, self.null(T), e)
            return o
        if n == 'reset' and (not A or A[0]['t'].k == 'null' or A[0]['k'] in ('Null', 'Cast', 'Ctor')):
            x = A[0] if A else None
            while x is not None and x['k'] in ('Cast', 'Mat'): x = x['e']
            if x is None or x['k'] in ('Null', 'Ctor', 'Zero'):
                I.write(st, o, self.null(T), e); return UNIT
            return None
        if n == 'swap':
            b = I.lval(A[0], st, env)
            w = I.load(st, b, T)
            I.write(st, o, w, e); I.write(st, b, u, e)
            return UNIT
        return None

    def m_iter(self, n, o, T, A, e, f, st, env):
        I = self.I
        v = I.load(st, o, T)
        if v.op != 'iter': return None
        et = self.iter_elem(T)
        if n == 'operator*': return v.a[0] + ('i', v.a[1], et)
        if n == 'operator->': return ptr(TRUE, v.a[0] + ('i', v.a[1], et))
        if n in ('operator++', 'operator--'):
            d = 1 if n == 'operator++' else -1
            I.write(st, o, iter_(v.a[0], add(v.a[1], num(d, 'i'))), e)
            return v if A else o
        if n in ('operator+', 'operator-'):
            x = I.rval(A[0], st, env)
            if x.op == 'iter': return sub(v.a[1], x.a[1])
            return iter_(v.a[0], add(v.a[1], x) if n == 'operator+' else sub(v.a[1], x))
        if n in ('operator+=', 'operator-='):
            x = I.rval(A[0], st, env)
            I.write(st, o, iter_(v.a[0], add(v.a[1], x) if n == 'operator+=' else sub(v.a[1], x)), e)
            return o
        if n == 'operator[]':
            return v.a[0] + ('i', add(v.a[1], I.rval(A[0], st, env)), et)
        if n == 'operator=':
            I.write(st, o, I.rval(A[0], st, env), e); return o
        if n in ('operator==', 'operator!='):
            return I.compare(n[8:], v, I.rval(A[0], st, env), e)
        return None

    def m_bins(self, n, o, T, A, e, f, st, env):
        I = self.I
        if n in ('operator*',): return o
        if n == 'operator++': return I.load(st, o) if A else o
        if n == 'operator=':
            b = I.load(st, o)
            if b.op != 'bins': return None
            lv = b.a[0]
            v = I.rval(A[0], st, env)
            if v.op == 'bins':
                I.store(st, o, v); return o
            I.write(st, lv, push(I.load(st, lv), v), e)
            return o
        return None

    def m_var(self, n, o, T, A, e, f, st, env):
        I = self.I
        v = I.load(st, o, T)
        if n == 'index': return v.a[0]
        if n == 'valueless_by_exception': return FALSE
        if n == 'operator=':
            x = I.rval(A[0], st, env)
            if x.op != 'var': x = self.tovar(x, I.deref(A[0]['t']), T, st, e)
            I.write(st, o, x, e); return o
        return None

    def m_rec(self, n, o, T, A, e, f, st, env):
        I = self.I
        q = T.tmpl
        if q in ('absl::Status', 'absl::StatusOr'):
            code = I.load(st, o + 'code', None)
            if n == 'ok': return eq(code, I0)
            if n == 'code': return code
            if n == 'status': return self.temp_or(st, self.status(code), e)
            if n == 'message': return STR
            if n in ('operator*', 'value'):
                I.oblige('status-deref', eq(code, I0), st, e)
                return o + 'val'
            if n == 'operator->':
                I.oblige('status-deref', eq(code, I0), st, e)
                return ptr(TRUE, o + 'val')
            if n == 'value_or':
                return ite(eq(code, I0), I.load(st, o + 'val'), self.to(I.rval(A[0], st, env), T.targs[0], st, e))
            if n == 'operator=':
                x = I.rval(A[0], st, env)
                if q == 'absl::StatusOr' and not (x.op == 'rec' and x.a[0] == 'absl::StatusOr'):
                    if x.op == 'rec' and x.a[0] == 'absl::Status':
                        x = rec('absl::StatusOr', ('code', 'val'), [rec_get(x, 'code'), I.absent(T.targs[0])])
                    else: x = rec('absl::StatusOr', ('code', 'val'), [I0, self.to(x, T.targs[0], st, e)])
                I.write(st, o, x, e); return o
            if n in ('Update',):
                x = I.rval(A[0], st, env)
                I.write(st, o + 'code', ite(eq(code, I0), rec_get(x, 'code'), code), e)
                return UNIT
            if n == 'IgnoreError': return UNIT
        if n == 'operator=':
            I.write(st, o, I.rval(A[0], st, env), e); return o
        return None

    def temp_or(self, st, v, e):
        return v

    def m_str(self, n, o, T, A, e, f, st, env):
        I = self.I
        for a in A:
            I.effect(a, st, env)
        rt = I.deref(e['t'])
        if rt.sort == 'str': return o if e['vc'] != 'r' else STR
        if rt.sort == 'unit': return UNIT
        if rt.sort in N.SCAL: return opq('string', sort=rt.sort)
        return None

    def m_clo(self, n, o, T, A, e, f, st, env):
        I = self.I
        if n == 'operator()':
            c = I.load(st, o)
            return self.apply(c, [I.lval(a, st, env) for a in A], st, e)
        if n == 'operator bool': return TRUE
        if n == 'operator=':
            I.write(st, o, I.rval(A[0], st, env), e); return o
        return None

    def m_unit(self, n, o, T, A, e, f, st, env): return None

    def apply(self, c, args, st, e):
        """Calls a callable value with lvalue arguments."""
        I = self.I
        if c.op != 'clo' or c.a[1] is None: return None
        fd = I.P.funcs.get(c.a[1])
        if fd is None: return None
        av = []
        for p, a in zip(fd['ps'], args):
            if p['t'].sort == 'ref': av.append(a if not isinstance(a, Node) else I.temp(st, a))
            else: av.append(self.to(a, p['t'], st, e))
        if c.a[0] == '#fn': return I.invoke(fd['key'], None, av, st, e)
        return I.apply_closure(c, fd, av, st, e)

    # ------------------------------------------------------------ free functions
    def call(self, e, f, st, env):
        I = self.I
        q = f['sqn']
        n = f['n']
        A = e['args']
        r = self._call(q, n, A, e, f, st, env)
        if r is None:
            I.extcalls.setdefault(q, I.where(e))
            for i, a in enumerate(A):
                t = f['ps'][i] if i < len(f['ps']) else None
                if t is not None and t.sort == 'ref' and not t.e.c:
                    lv = I.lval(a, st, env)
                    try: I.store(st, lv, I.opaque('mutated by ' + q, e, t.e))
                    except Exception: I.note('mutation by ' + q, e)
                else: I.effect(a, st, env)
            return I.opaque('call ' + q, e, I.deref(e['t']))
        return r

    def R(self, a, st, env): return self.I.rval(a, st, env)

    def _call(self, q, n, A, e, f, st, env):
        I = self.I
        if q.startswith('absl::') and n in CODES:
            for a in A: I.effect(a, st, env)
            return self.status(num(CODES[n], 'i'))
        if q in ('absl::StrCat', 'absl::StrFormat', 'absl::Substitute', 'absl::StrAppend', 'absl::StrJoin', 'std::to_string',
                 'absl::ToUnixSeconds', 'absl::StrAppendFormat'):
            for a in A: I.effect(a, st, env)
            return STR if e['t'].sort == 'str' else UNIT
        if q.startswith('absl::Is') and len(A) == 1:
            v = self.R(A[0], st, env)
            nm = q[8:] + 'Error'
            if nm in CODES: return eq(rec_get(v, 'code'), num(CODES[nm], 'i'))
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::launder'): return I.lval(A[0], st, env)
        if q in ('std::addressof', 'std::__addressof'): return ptr(TRUE, I.lval(A[0], st, env))
        m = SUF.get(q[5:] if q.startswith('std::') else q)
        if m is not None and e['t'].sort in N.SCAL:
            vs = [self.R(a, st, env) for a in A]
            for i, v in enumerate(vs):
                if v.sort == 'i' and not (m == 'abs' and e['t'].sort == 'i'): vs[i] = I.i2f(v)
            if any(v.op == 'undef' for v in vs):
                I.undefs.append((I.where(e), q)); return opq('undef', sort=e['t'].sort)
            return self.math(m, vs, e)
        if q in ('std::lerp', 'lerp'):
            a, b, t = [self.R(x, st, env) for x in A]
            return add(a, mul(sub(b, a), t))
        if q == 'std::midpoint' and e['t'].sort == 'f':
            a, b = [self.R(x, st, env) for x in A]
            return div(add(a, b), num(2))
        if q in ('std::min', 'std::max') and len(A) == 2:
            a, b = [I.lval(x, st, env) for x in A]
            T = I.deref(A[0]['t'])
            va, vb = I.load(st, a, T), I.load(st, b, T)
            if va.sort not in N.SCAL: return None
            c = I.simp(lt(vb, va) if n == 'min' else lt(va, vb), st.facts)
            if c is TRUE: return b
            if c is FALSE: return a
            return I.temp(st, ite(c, vb, va))
        if q in ('std::min', 'std::max') and len(A) == 1:
            s = self.R(A[0], st, env)
            vals = []
            while s.op == 'push': vals.insert(0, s.a[1]); s = s.a[0]
            if s is not EMPTY or not vals: return None
            r = vals[0]
            for v in vals[1:]: r = ite(lt(v, r) if n == 'min' else lt(r, v), v, r)
            return r
        if q == 'std::clamp' and len(A) == 3:
            ls = [I.lval(x, st, env) for x in A]
            v, lo, hi = [I.load(st, l, I.deref(x['t'])) for l, x in zip(ls, A)]
            c1, c2 = I.simp(lt(v, lo), st.facts), I.simp(lt(hi, v), st.facts)
            return I.temp(st, ite(c1, lo, ite(c2, hi, v)))
        if q in ('std::swap',):
            a, b = [I.lval(x, st, env) for x in A]
            va, vb = I.load(st, a), I.load(st, b)
            I.write(st, a, vb, e); I.write(st, b, va, e)
            return UNIT
        if q == 'std::exchange':
            a = I.lval(A[0], st, env)
            v = self.to(self.R(A[1], st, env), I.deref(A[0]['t']), st, e)
            old = I.load(st, a)
            I.write(st, a, v, e)
            return old
        if q.startswith('std::numeric_limits'):
            T = f.get('cls_t') or e['t']
            if e['t'].sort == 'f':
                import interp
                if n == 'infinity': return mk('inf')
                if n in ('quiet_NaN', 'signaling_NaN'): return mk('nan')
                if n == 'max': return interp.FLTMAX
                if n == 'lowest': return neg(interp.FLTMAX)
                if n == 'epsilon': return num(Fraction(1, 2 ** 23))
                if n == 'min': return num(Fraction('1.17549e-38'))
            if e['t'].sort == 'i' and 'cv' not in e:
                b, u = e['t'].b, e['t'].u
                if n == 'max': return num(2 ** b - 1 if u else 2 ** (b - 1) - 1, 'i')
                if n in ('min', 'lowest'): return num(0 if u else -2 ** (b - 1), 'i')
        if q == 'std::back_inserter': return mk('bins', I.lval(A[0], st, env), sort='bins')
        if q in ('std::holds_alternative', 'std::get', 'std::get_if'):
            return self.variant(q, A, e, f, st, env)
        if q in ('std::make_unique', 'absl::make_unique', 'absl::WrapUnique'):
            T = e['t']
            if n == 'WrapUnique': return None
            ct = T.targs[0]
            cs = I.uclasses(T)
            if ct.n not in cs: return None
            v = self.make(ct, A, st, env, e)
            if v is None: return None
            return uptr(cs, num(cs.index(ct.n) + 1, 'i'), [v if c == ct.n else I.absent(I.rectype(c)) for c in cs])
        if q in ('std::make_optional',):
            v = self.R(A[0], st, env)
            return opt(TRUE, self.to(v, e['t'].targs[0], st, e))
        if q == 'std::make_pair':
            return rec('std::pair', ('first', 'second'), [self.to(self.R(a, st, env), t, st, e) for a, t in zip(A, e['t'].targs)])
        if q == 'std::make_tuple' or q == 'std::tie':
            ts = I.flat(e['t'].targs)
            if q == 'std::tie': return None
            return rec('std::tuple', ['t%d' % i for i in range(len(ts))], [self.to(self.R(a, st, env), t, st, e) for a, t in zip(A, ts)])
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-', 'operator+') and not f.get('own') and len(A) == 2:
            return self.op2(n[8:], A, e, st, env)
        if n == 'operator<<' and e['t'].sort == 'str' or (n == 'operator<<' and I.deref(e['t']).sort == 'str'):
            for a in A[1:]: I.effect(a, st, env)
            return I.lval(A[0], st, env)
        if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::empty', 'std::data', 'std::ssize'):
            o = I.lval(A[0], st, env)
            T = I.deref(A[0]['t'])
            h = {'seq': self.m_seq, 'arr': self.m_arr}.get(T.sort)
            if h: return h('size' if n == 'ssize' else n, o, T, [], e, f, st, env)
        if q in ('std::next', 'std::prev', 'std::advance', 'std::distance'):
            if q == 'std::distance':
                a, b = self.R(A[0], st, env), self.R(A[1], st, env)
                if a.op == 'iter' and b.op == 'iter' and a.a[0] == b.a[0]: return sub(b.a[1], a.a[1])
                return None
            d = self.R(A[1], st, env) if len(A) > 1 else I1
            if q == 'std::prev': d = neg(d)
            if q == 'std::advance':
                l = I.lval(A[0], st, env)
                I.write(st, l, I.padd(I.load(st, l), d), e); return UNIT
            return I.padd(self.R(A[0], st, env), d)
        if q.startswith('std::') and n in ('for_each', 'transform', 'accumulate', 'any_of', 'all_of', 'none_of', 'copy', 'fill',
                                           'find_if', 'count_if', 'inner_product', 'min_element', 'copy_n', 'generate', 'fill_n'):
            return self.algo(n, A, e, f, st, env)
        if n in ('__builtin_expect', '__builtin_expect_with_probability'): return self.R(A[0], st, env)
        if q in ('std::abs', 'abs', 'labs') and e['t'].sort == 'i': return fabs(self.R(A[0], st, env))
        if q == 'std::tuple_size': return None
        return None

    def make(self, ct, A, st, env, e):
        I = self.I
        if len(A) == 1 and I.deref(A[0]['t']).k == 'rec' and I.deref(A[0]['t']).n == ct.n:
            v = I.rval(A[0], st, env)
            # repository copy constructor?
            for m in ct.rec.get('methods', ()):
                fd = I.P.funcs.get(m['key'])
                if fd and fd.get('ctor') and 'body' in fd and not fd.get('defaulted') and len(fd['ps']) == 1 \
                        and fd['ps'][0]['t'].sort == 'ref' and fd['ps'][0]['t'].e.n == ct.n:
                    return I.construct(ct, {'key': m['key'], 'qn': fd['qn']}, [lambda t: I.temp(st, v)], st, e)
            return v
        if not A: return I.default(ct, st, e, True)
        return self.emplace_value(ct, A, st, env, e)

    def math(self, m, vs, e):
        x = vs[0]
        if m == 'sqrt': return sqrt(x)
        if m in ('fabs', 'abs'): return fabs(x)
        if m == 'hypot':
            r = mul(x, x)
            for y in vs[1:]: r = add(r, mul(y, y))
            return sqrt(r)
        if m == 'pow':
            y = vs[1]
            if isnum(y):
                p = y.a[0]
                if p == Fraction(1, 2): return sqrt(x)
                if p.denominator == 1 and 0 <= p <= 12:
                    r = ONE
                    for _ in range(int(p)): r = mul(r, x)
                    return r
                if p.denominator == 1 and -12 <= p < 0:
                    r = ONE
                    for _ in range(int(-p)): r = mul(r, x)
                    return div(ONE, r)
            return fn('pow', x, y)
        if m == 'fmin': return ite(lt(vs[1], x), vs[1], x)
        if m == 'fmax': return ite(lt(x, vs[1]), vs[1], x)
        if m == 'fma': return add(mul(x, vs[1]), vs[2])
        if m == 'fdim': return ite(lt(vs[1], x), sub(x, vs[1]), ZERO)
        if m in ('isnan', 'isinf', 'isfinite'):
            if isnum(x): return B(m == 'isfinite')
            if x.op in ('inf', 'ninf'): return B(m == 'isinf')
            if x.op == 'nan': return B(m == 'isnan')
            r = fn(m, x, sort='b')
            if e['t'].sort == 'i': return ite(r, I1, I0)
            return r
        if m == 'signbit': return lt(x, ZERO)
        if m == 'floor' and isnum(x): return num(x.a[0].__floor__())
        if m == 'ceil' and isnum(x): return num(x.a[0].__ceil__())
        if m in ('ceil', 'floor', 'round', 'trunc', 'rint', 'nearbyint') and x.op == 'i2f': return x
        if m == 'fmod':
            y = vs[1]
            c = y.a[0] if isnum(y) else None
            if c is None and y.op == 'mul' and any(isnum(z) and z.a[0] > 0 for z in y.a) and any(z.op == 'sym' and z.a[0] == 'PI' for z in y.a): c = 1
            if c is None and y.op == 'sym' and y.a[0] == 'PI': c = 1
            if c is not None and c > 0:
                y2 = add(y, y)
                return ite(lt(x, y), ite(lt(neg(y), x), x, ite(lt(neg(y2), x), add(x, y), fn(m, x, y))), ite(lt(x, y2), sub(x, y), fn(m, x, y)))
        return fn(m, *vs)

    def op2(self, op, A, e, st, env):
        I = self.I
        ts = [I.deref(a['t']) for a in A]
        s0, s1 = ts[0].sort, ts[1].sort
        if s0 == 'opt' or s1 == 'opt':
            if ts[1].tmpl == 'std::nullopt_t' or ts[0].tmpl == 'std::nullopt_t':
                v = self.R(A[0] if s0 == 'opt' else A[1], st, env)
                return not_(v.a[0]) if op == '==' else v.a[0]
            a, b = self.R(A[0], st, env), self.R(A[1], st, env)
            if op in ('==', '!='):
                if s0 == 'opt' and s1 == 'opt': r = self.deep_eq(a, b)
                elif s0 == 'opt': r = and_(a.a[0], self.deep_eq(a.a[1], b))
                else: r = and_(b.a[0], self.deep_eq(a, b.a[1]))
                return r if op == '==' else not_(r)
            return None
        if s0 == 'uptr' or s1 == 'uptr':
            u = A[0] if s0 == 'uptr' else A[1]
            w = A[1] if s0 == 'uptr' else A[0]
            if I.deref(w['t']).k == 'null' or w['k'] == 'Null':
                v = self.R(u, st, env)
                c = eq(v.a[1], I0)
                return c if op == '==' else not_(c)
            return None
        if s0 == 'iter' and s1 == 'iter':
            a, b = self.R(A[0], st, env), self.R(A[1], st, env)
            if op == '-': return sub(a.a[1], b.a[1])
            return I.compare(op, a, b, e)
        if s0 in ('seq', 'arr', 'var', 'rec') and op in ('==', '!='):
            a, b = self.R(A[0], st, env), self.R(A[1], st, env)
            r = self.deep_eq(a, b)
            return r if op == '==' else not_(r)
        if s0 == 'str' and op in ('==', '!='): return opq('string', sort='b')
        if op == '+' and s0 == 'str': return STR
        return None

    def variant(self, q, A, e, f, st, env):
        I = self.I
        a = A[0]
        n = f['n']
        targ = f['targs'][0] if f.get('targs') else None
        if n == 'get_if':
            p = I.rval(a, st, env)
            T = a['t'].e
            lv = p.a[1]
        else:
            T = I.deref(a['t'])
            lv = I.lval(a, st, env)
        if T.sort == 'var':
            alts = I.alts(T)
            if isinstance(targ, dict): k = targ['v']
            else:
                k = None
                for i, t in enumerate(alts):
                    if t is targ or t.s == targ.s or (t.k == 'rec' and targ.k == 'rec' and t.n == targ.n): k = i
                if k is None: return None
            v = I.load(st, lv, T)
            is_ = eq(v.a[0], num(k, 'i'))
            if n == 'holds_alternative': return is_
            if n == 'get':
                I.oblige('variant-get', is_, st, e)
                return lv + ('v', k)
            return ptr(is_, lv + ('v', k))
        if T.sort == 'rec' and n == 'get':
            if isinstance(targ, dict):
                return lv + I.recfields(T)[1][int(targ['v'])][0]
        if T.sort == 'arr' and n == 'get' and isinstance(targ, dict): return lv + ('i', num(int(targ['v']), 'i'))
        return None

    # ------------------------------------------------------------ algorithms
    def algo(self, n, A, e, f, st, env):
        I = self.I
        x = self.R(A[0], st, env)
        if n in ('copy_n', 'fill_n', 'generate'): return None
        y = self.R(A[1], st, env)
        et = None
        if x.op == 'iter': et = self.iter_elem(I.deref(A[0]['t']))
        elif not (x.op == 'ptr' and isinstance(x.a[1], LV)): return None
        posn = lambda it: it.a[1] if it.op == 'iter' else it.a[1].path[-1][1]

        def at(it):
            return it.a[0] + ('i', it.a[1], et) if it.op == 'iter' else it.a[1]
        cur = I.temp(st, x)
        end = posn(y)
        out = None
        acc = None
        extra = None
        if n == 'accumulate':
            acc = I.temp(st, self.R(A[2], st, env)); act = I.deref(A[2]['t'])
            op = self.R(A[3], st, env) if len(A) > 3 else None
        elif n in ('any_of', 'all_of', 'none_of', 'for_each', 'find_if', 'count_if'):
            fnv = self.R(A[2], st, env)
            acc = I.temp(st, {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'count_if': I0}.get(n, UNIT))
        elif n == 'copy': out = I.temp(st, self.R(A[2], st, env))
        elif n == 'transform':
            if len(A) == 4: out = I.temp(st, self.R(A[2], st, env)); fnv = self.R(A[3], st, env)
            else:
                extra = I.temp(st, self.R(A[2], st, env)); out = I.temp(st, self.R(A[3], st, env)); fnv = self.R(A[4], st, env)
        elif n == 'fill': val = self.R(A[2], st, env)
        elif n == 'inner_product':
            extra = I.temp(st, self.R(A[2], st, env)); acc = I.temp(st, self.R(A[3], st, env)); act = I.deref(A[3]['t'])
            if len(A) > 4: return None
        else: return None

        def emit(s, v):
            o = s.mem[out.root]
            if o.op == 'bins': I.store(s, o.a[0], push(I.load(s, o.a[0]), v))
            else:
                I.store(s, at2(o), v)
                s.mem[out.root] = I.padd(o, I1)

        def at2(o): return o.a[1] if o.op == 'ptr' else o.a[0] + ('i', o.a[1], et)

        def once(s):
            it = s.mem[cur.root]
            c = lt(posn(it), end)

            def body(s):
                lv = at(it)
                nxt = lambda s: s.mem.__setitem__(cur.root, I.padd(it, I1))
                if n == 'accumulate':
                    a = s.mem[acc.root]
                    if op is None:
                        v = I.load(s, lv)
                        if v.sort not in N.SCAL: raise KeyError('accumulate')
                        r = I.conv(add(a, v), act, s, e)
                    else:
                        r = self.apply(op, [acc, lv], s, e)
                        r = self.to(r, act, s, e)
                    s.mem[acc.root] = r; nxt(s)
                elif n == 'inner_product':
                    it2 = s.mem[extra.root]
                    s.mem[acc.root] = add(s.mem[acc.root], mul(I.load(s, lv), I.load(s, at2(it2))))
                    s.mem[extra.root] = I.padd(it2, I1); nxt(s)
                elif n == 'for_each':
                    self.apply(fnv, [lv], s, e); nxt(s)
                elif n in ('any_of', 'all_of', 'none_of', 'find_if'):
                    r = I.tobool(self.val(self.apply(fnv, [lv], s, e), s))
                    hit = r if n != 'all_of' else not_(r)

                    def found(s):
                        if n == 'any_of': s.mem[acc.root] = TRUE
                        elif n in ('all_of', 'none_of'): s.mem[acc.root] = FALSE
                        return {'B': (TRUE, s, None)}

                    def cont(s):
                        nxt(s); return {'N': (TRUE, s, None)}
                    return I.branch(hit, s, found, cont)
                elif n == 'count_if':
                    r = I.tobool(self.val(self.apply(fnv, [lv], s, e), s))
                    s.mem[acc.root] = ite(r, add(s.mem[acc.root], I1), s.mem[acc.root]); nxt(s)
                elif n == 'copy': emit(s, I.load(s, lv)); nxt(s)
                elif n == 'fill': I.store(s, lv, val); nxt(s)
                elif n == 'transform':
                    args = [lv]
                    if extra is not None:
                        it2 = s.mem[extra.root]
                        args.append(at2(it2)); s.mem[extra.root] = I.padd(it2, I1)
                    v = self.val(self.apply(fnv, args, s, e), s)
                    emit(s, v); nxt(s)
                return {'N': (TRUE, s, None)}
            return I.branch(c, s, body, lambda z: {'X': (TRUE, z, None)})
        o = I.run_loop(once, st, e)
        s2 = o['N'][1]
        st.mem = s2.mem; st.facts = s2.facts
        if n in ('accumulate', 'any_of', 'all_of', 'none_of', 'count_if', 'inner_product'): return st.mem[acc.root]
        if n == 'find_if': return st.mem[cur.root]
        if n in ('transform', 'copy'): return st.mem[out.root]
        return UNIT

    def val(self, v, s):
        if isinstance(v, (LV, LVite)): return self.I.load(s, v)
        if v is None: raise KeyError('callable')
        return v


class _S:
    sort = 'seq'


SEQ = _S()
