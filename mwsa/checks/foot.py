"""The foot trajectory: spline interpolation (C18)."""
from fractions import Fraction as Fr
from .. import alg, ir
from ..alg import S, M, FACTS, ZERO, ONE, subst
from ..interp import Ptr, Loc
from ..scen import Scen, sym, symm, symv, NS

def diff(x, d):
    """derivative of a polynomial in the atom d (None when d occurs otherwise)"""
    out = ZERO
    for m, c in x.t.items():
        k = 0; rest = []
        for a, e in m:
            A = alg._by_id[a]
            if A is d: k = e
            elif d in alg.free_atoms(S.of(A)): return None
            else: rest.append((a, e))
        if k: out = out + S({tuple(rest): c * k}) * (S.of(d) ** (k - 1) if k != 1 else ONE)
    return out

class Pieces:
    """value of the interpolated state on each third of the motion, as a function of the time since its beginning"""
    def __init__(self, run):
        T = sym('T'); d = sym('d'); self.T, self.d = T, d; self.p = []
        third = T / 3
        for i in range(3):
            n0 = len(FACTS.l)
            FACTS.push(T - ONE / 10**9); FACTS.push(d - ONE / 10**12 if i else d); FACTS.push(third - d)
            self.p.append(run(third * i + d, T))
            FACTS.release(n0)
    def at(self, i, v, k): return subst(v, {next(iter(self.d.atoms())): self.T * Fr(k, 3) - self.T * Fr(i, 3)})

def spline(t, lab, P, start, end, wh):
    d = next(iter(P.d.atoms())); comp = ('position', 'velocity', 'acceleration')
    for i, p in enumerate(P.p):
        l = '%s: third %d: ' % (lab, i + 1); cur = p[0]
        for k in (1, 2):
            dv = diff(cur, d)
            if not t.fact(dv is not None, l + 'polynomial in time', wh, str(cur)[:200], 'cubic in time'): break
            t.eq(l + '%s is the derivative of the %s' % (comp[k], comp[k - 1]), p[k], dv, wh, rule='time derivative')
            cur = p[k]
        else:
            dv = diff(p[2], d); dd = diff(dv, d) if dv is not None else None
            if t.fact(dd is not None, l + 'acceleration is polynomial in time', wh, '', 'cubic in time'): t.eq(l + 'jerk is constant', dd, ZERO, wh, rule='cubic in time')
    for k in range(3):
        t.eq('%s: %s at the beginning' % (lab, comp[k]), P.at(0, P.p[0][k], 0), start[k], wh, rule='starts from the current state')
        for j in (1, 2): t.eq('%s: %s continuous at %d/3' % (lab, comp[k], j), P.at(j - 1, P.p[j - 1][k], j), P.at(j, P.p[j][k], j), wh, rule='pieces join with equal position, velocity and acceleration')
        t.eq('%s: %s at the end' % (lab, comp[k]), P.at(2, P.p[2][k], 3), end[k], wh, rule='ends in the objective state')

def E3(v): return [v.elem(S.of(i), ZERO) for i in range(3)]
def vec3(l):
    m = M.zero(S.of(3), ONE)
    for i, x in enumerate(l): m = m + M.E(i, 1, 3).scale(x)
    return m

def foot(P, t, sc, ax):
    """updateStateX/Y/Z of the foot model"""
    s = Scen(P, sc); lab = 'HumanoidFootModel<%s> %s' % (sc, ax); o = s.new('HumanoidFootModel', name='foot')
    x = {a: [sym('%s%d' % (a, i)) for i in range(3)] for a in 'XYZ'}; g = [sym('goal%d' % i) for i in range(3)]; w = {}
    for a in 'XYZ': s.call(o, 'setState' + a, vec3(x[a]))
    def run(tm, T):
        f = s.fork(); f.call(o, 'updateState' + ax, vec3(g), T, tm); w['w'] = f.where()
        got = f.call(o, 'getState' + ax)
        for a in 'XYZ':
            if a != ax: t.eq('%s: %s untouched' % (lab, a), f.call(o, 'getState' + a), vec3(x[a]), f.where(), rule='an axis is moved by its own update')
        return E3(got)
    p = Pieces(run); spline(t, lab, p, x[ax], g, w['w'])
    t.absorb(s.I)

def twice(P, t, sc):
    """the interpolation keeps nothing from an earlier one"""
    s = Scen(P, sc); lab = 'HumanoidFootModel<%s> second update' % sc; o = s.new('HumanoidFootModel', name='foot')
    T, u = sym('T'), sym('u'); FACTS.push(T - ONE / 10**9); FACTS.push(u); FACTS.push(T / 3 - u)
    r = []
    for first in (True, False):
        f = s.fork()
        if first: f.call(o, 'setStateX', vec3([sym('b%d' % i) for i in range(3)])); f.call(o, 'updateStateX', vec3([sym('c%d' % i) for i in range(3)]), T, u)
        f.call(o, 'setStateX', vec3([sym('x%d' % i) for i in range(3)])); f.call(o, 'updateStateX', vec3([sym('g%d' % i) for i in range(3)]), T, u)
        r.append(f.call(o, 'getStateX')); w = f.where()
    for i in range(3): t.eq('%s: component %d' % (lab, i), r[0].elem(S.of(i), ZERO), r[1].elem(S.of(i), ZERO), w, rule='depends on the current state and objective only')
    t.absorb(s.I)

def interpolator(P, t, sc):
    """the factors of the three cubics, used as documented"""
    s = Scen(P, sc); lab = 'Interpolator<%s>' % sc; o = s.new('Interpolator', name='interp')
    x = [sym('x%d' % i) for i in range(3)]; g = [sym('g%d' % i) for i in range(3)]; w = {}
    def run(tm, T):
        f = s.fork(); fac = Loc(('factor',), (), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': 1, 's': sc}); sub = Loc(('sub',), (), {'b': 'Eigen', 'e': 'Matrix', 'r': 4, 'c': 1, 's': sc})
        f.I.store(f.st, fac, symv('before', 12)); f.I.store(f.st, sub, symv('subbefore', 4))
        f.call(o, 'computePolynomialNormalisedFactors', fac, vec3(x), vec3(g), T); w['w'] = f.where()
        all_ = f.I.load(f.st, fac)
        f.call(o, 'selectFactors', sub, fac, tm, T)
        v = f.I.load(f.st, sub); c = [v.elem(S.of(i), ZERO) for i in range(4)]; u = tm / T
        t.eq(lab + ': factors are not changed by a selection', f.I.load(f.st, fac), all_, f.where(), rule='unchanged')
        return [c[0] * u ** 3 + c[1] * u ** 2 + c[2] * u + c[3], (c[0] * u ** 2 * 3 + c[1] * u * 2 + c[2]) / T, (c[0] * u * 6 + c[1] * 2) / T ** 2]
    p = Pieces(run); spline(t, lab, p, x, g, w['w'])
    t.absorb(s.I)

def tools(P, t, sc):
    """the polynomial and its two derivatives"""
    s = Scen(P, sc); c = [sym('c%d' % i) for i in range(4)]; u = sym('u'); m = M.zero(S.of(4), ONE)
    for i, x in enumerate(c): m = m + M.E(i, 1, 4).scale(x)
    for n, want in (('polynomValue', c[0] * u ** 3 + c[1] * u ** 2 + c[2] * u + c[3]), ('dPolynomValue', c[0] * u ** 2 * 3 + c[1] * u * 2 + c[2]), ('ddPolynomValue', c[0] * u * 6 + c[1] * 2)):
        f = [f for f in P.fun.values() if f['n'] == n and f['ret']['b'] == sc]
        if not f: continue                        # not part of the library interface
        r = s.I.call(s.st, f[0], None, [m, u]); r = s.I.load(s.st, r) if not isinstance(r, S) else r
        t.eq('Tools::%s<%s>' % (n, sc), r, want, '%s:%s %s' % (f[0]['file'], f[0]['l'], f[0]['id']), rule='cubic, highest power first, and its derivatives')
    t.absorb(s.I)
