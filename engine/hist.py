"""Symbolic call histories of one StrokeModeler.

Every operation of the public interface is read once over a symbolic modeler;
the value graphs of its outputs and of the modeler it leaves behind are then
composed by substitution or by reading the next operation over the result."""
import re
import equal
from node import *
import node as N
from interp import Interp, State, Unmodelled
from prog import AnalysisError

SM = 'ink::stroke_model::StrokeModeler'
OPS = ('update', 'predict', 'reset1', 'reset0', 'save', 'restore')


class Side:
    """Values after an operation: status code, results, modeler."""

    def __init__(self, code, out, m, st): self.code = code; self.out = out; self.m = m; self.st = st


class Hist:
    def __init__(self, P):
        self.P = P
        self.I = Interp(P)
        self.globals = {}
        ms = {}
        for k, f in P.funcs.items():
            if f.get('cls') == SM and 'body' in f: ms.setdefault(f['n'], []).append(f)
        self.fn = {}
        def pick(n, k): return [f for f in ms.get(n, ()) if len(f['ps']) == k and f.get('acc', 'public') == 'public']
        for op, n, k in (('update', 'Update', 2), ('predict', 'Predict', 1), ('reset1', 'Reset', 1), ('reset0', 'Reset', 0), ('save', 'Save', 0), ('restore', 'Restore', 0)):
            c = pick(n, k)
            if len(c) != 1: raise AnalysisError('no unique %s/%d' % (n, k))
            self.fn[op] = c[0]
        self.T = self.I.rectype(SM)
        self.Tin = self.fn['update']['ps'][0]['t'].e
        self.Tout = self.fn['update']['ps'][1]['t'].e
        self.Tpar = self.fn['reset1']['ps'][0]['t'].e

    # ------------------------------------------------------------ variables that outlive a call
    def outliving(self):
        """Variables of the library that are not compile-time constants: their
        value is part of the state of the process."""
        I = self.I
        out = {}
        for k, g in self.P.globals.items():
            if not g.get('own', True) or g['t'].sort == 'ref': continue
            if (g.get('const') or g.get('constexpr')) and 'cv' in g: continue
            v = None
            if g.get('init') is not None:
                n = len(I.unk)
                try: v = I.rval(g['init'], State(), {'#ret': g['t']})
                except (Unmodelled, KeyError, AttributeError, TypeError, IndexError): v = None
                if v is not None and (len(I.unk) > n or deps([v])): v = None
                del I.unk[n:]
            if (g.get('const') or g.get('constexpr')) and v is not None: continue
            if v is None and (g.get('const') or g.get('constexpr')) and not g.get('static_local'): continue
            out[k] = v
        return out

    def hide(self, tag):
        """Arbitrary (tag) or initial (None) values of those variables."""
        I = self.I
        h = {}
        for k, v in I.hid.items():
            T = self.P.globals[k]['t']
            lazy = self.P.globals[k].get('static_local')
            h[('g', k)] = I.symbolic(T, tag + k) if tag else v if v is not None else I.undef(T)
            if lazy: h[('g', '#' + k)] = sym(tag + '#' + k, 'b') if tag else FALSE
        return h

    # ------------------------------------------------------------ values
    def modeler(self, name='m'): return self.I.symbolic(self.T, name)
    def input(self, name='in'): return self.I.symbolic(self.Tin, name)
    def results(self, name='out'): return self.I.symbolic(self.Tout, name)
    def params(self, name='par'): return self.I.symbolic(self.Tpar, name)

    def fresh(self):
        """A default-constructed modeler."""
        st = State()
        return self.I.default(self.T, st, {'ln': None})

    def do(self, op, m, arg=None, out=None, pre=TRUE):
        st = State()
        I = self.I
        if pre is not TRUE: I.assume(st, pre, pc=False)
        st.mem['p:m'] = m
        st.mem.update(self.globals)
        f = self.fn[op]
        av = []
        if op == 'update': st.mem['p:arg'] = arg; av.append(LV('p:arg'))
        if op == 'reset1': st.mem['p:arg'] = arg; av.append(LV('p:arg'))
        if op in ('update', 'predict'): st.mem['p:out'] = out; av.append(LV('p:out'))
        r = I.invoke(f['key'], LV('p:m'), av, st, {'t': f['ret'], 'ln': f['ln']})
        if isinstance(r, (LV, LVite)): r = I.load(st, r)
        code = rec_get(r, 'code') if r.op == 'rec' else None
        return Side(code, st.mem.get('p:out'), st.mem['p:m'], st)


def leaf_list(v):
    out = []
    equal.leaves(v, (), out)
    return [(equal.pkey(p), x) for p, x in out]


def deps(nodes):
    """Symbolic leaves a value graph mentions (as node ids)."""
    return {i for i, n in reach(nodes).items() if n.op in ('sym', 'sseq')}
