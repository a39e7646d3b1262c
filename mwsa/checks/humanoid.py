"""Humanoid objectives and constraints (C11, C12).  The feet supervisor is represented by what it publishes:
its public getters return symbols related as its own properties state (the transposes are transposes,
the sample weights are a symmetric matrix)."""
from ..scen import *
from .. import alg, ir
from ..alg import S, M, FACTS, ZERO, ONE
from .objective import Cost, consistency, against, sel, part
from ..interp import Opq

FS = NS + 'HumanoidFeetSupervisor'; CP = NS + 'ConvexPolygon'

class Walker:
    def __init__(self, P, sc, N=None, steps=None, polys=False):
        s = self.s = Scen(P, sc, dyn=True)
        N = self.N = sym('N', True, 1) if N is None else S.of(N)
        Mp = self.M = sym('M', True, 0) if steps is None else S.of(steps)
        T = self.T = sym('T'); FACTS.push(T - ONE / 1000); Fb = self.Fb = sym('F'); FACTS.push(Fb - ONE / 1000); FACTS.push(T - Fb)
        FACTS.push(alg.uf('trunc', (T + s.eps) / T, integer=True) - 1)
        FACTS.push(alg.uf('trunc', (T + s.eps) / Fb, integer=True) - 1)
        lip = self.lip = s.new('LIPModel', N, T, ZERO, name='lip')
        s.call(lip, 'setFeedbackPeriod', Fb); s.call(lip, 'setComHeight', sym('h')); self.g = symv('g', 3); s.call(lip, 'setGravity', self.g)
        s.call(lip, 'computeDynamics')
        self.calls = sym('calls', True, 1); self.nb = self.calls - 1
        FACTS.push(alg.uf('trunc', (T + s.eps) / Fb, integer=True) - self.calls)
        self.R = symm('R', N * 2, N * 2); self.FU = symm('FU', N, Mp); self.FS = symm('FS', N, 1)
        self.W = M.of(matom('sym', ('W',), N, N, name='W', sym=True))
        self.feet = Loc(('feet',), (), {'b': s.cls('HumanoidFeetSupervisor'), 'rec': 1}); s.I.init_mode['feet'] = 'sym'
        self.sup = {'X': symv('supX', 3), 'Y': symv('supY', 3)}
        fd = s.new('LinearDynamic', name='feetdyn'); Z = M.zero(N, 1)
        for n, v in (('U', self.FU), ('UT', self.FU.T), ('S', self.FS), ('K', Z)):
            l = s.I.member(s.st, fd, n, dict(s.I.fields(fd.t['b']))[n]); s.I.store(s.st, l, v)
        get = {'getNbSamples': N, 'getNbPreviewedSteps': Mp, 'getSamplingPeriod': T, 'getRotationMatrix': self.R, 'getRotationMatrixT': self.R.T,
               'getFeetPosLinearDynamic': fd, 'getSampleWeightMatrix': self.W, 'getNbOfCallsBeforeNextSample': self.calls,
               'getSupportFootStateX': self.sup['X'], 'getSupportFootStateY': self.sup['Y']}
        for n, v in get.items():
            if not s.has(self.feet, n): raise ir.AnalysisBroken('%s::%s is gone' % (FS, n))
            s.I.summ[(FS, n)] = self.const(v)
        for n in ('getCopConvexPolygon', 'getKinematicConvexPolygon'):
            s.I.summ[(FS, n)] = self.polygon('cop' if 'Cop' in n else 'kin')
        for n, k in (('getXSupBound', 'xs'), ('getXInfBound', 'xi'), ('getYSupBound', 'ys'), ('getYInfBound', 'yi')): s.I.summ[(CP, n)] = self.pol(k)
        for n, k in (('getGeneralConstraintsMatrixCoefsForX', 'ax'), ('getGeneralConstraintsMatrixCoefsForY', 'ay'), ('getGeneralConstraintsConstantPart', 'b')): s.I.summ[(CP, n)] = self.polv(k)
        s.I.summ[(CP, 'getNbGeneralConstraints')] = lambda I, st, obj, args, e, fr: self.pn(obj)
    @staticmethod
    def const(v): return lambda I, st, obj, args, e, fr: v
    def polygon(self, kind):
        def h(I, st, obj, args, e, fr):
            i = I.load(st, args[0]); return Loc((kind, '[]'), (S.of(i),), {'b': self.s.cls('ConvexPolygon'), 'rec': 1})
        return h
    def pn(self, o): return alg.uf('nrows_' + o.path[0], o.idx[0], integer=True, lb=0)
    def pol(self, k): return lambda I, st, o, args, e, fr: alg.uf('%s_%s' % (o.path[0], k), o.idx[0])
    def polv(self, k): return lambda I, st, o, args, e, fr: alg.ufm('%s_%s' % (o.path[0], k), self.pn(o), 1, o.idx[0])
    # what the polygon of a sample or step publishes
    def poly(self, kind, i):
        i = S.of(i); n = alg.uf('nrows_' + kind, i, integer=True, lb=0)
        v = lambda k: alg.ufm('%s_%s' % (kind, k), n, 1, i)
        b = lambda k: alg.uf('%s_%s' % (kind, k), i)
        return n, v('ax'), v('ay'), v('b'), b
    def states(self, tag=''):
        for a in ('X', 'Y', 'Yaw'): self.s.call(self.lip, 'setState' + a, symv('com%s%s' % (a, tag), 3))
    def d(self, name):
        s = self.s; last = getattr(s, 'last', None); l = s.call_raw(self.lip, name, self.nb); s.last = last
        return tuple(s.leaf(l, x) for x in ('U', 'S', 'K', 'Uinv'))
    def st(self, n):
        last = getattr(self.s, 'last', None); r = self.s.call(self.lip, n); self.s.last = last; return r
    @property
    def n(self): return self.N * 2 + self.M * 2
    def cop(self, axis):
        """predicted CoP in the world frame on one axis as (J, c): local CoP rotated, plus the foot it belongs to"""
        N, Mp, n = self.N, self.M, self.n; k = 0 if axis == 'X' else 1
        J = self.R.T.block(N * k, ZERO, N, N * 2).mul(sel(ZERO, N * 2, n).T) + self.FU.mul(sel(N * 2 + Mp * k, Mp, n).T)
        return J, self.FS.scale(self.sup[axis].elem(ZERO, ZERO))
    def jerk(self, axis):
        """jerk sequence that realises the CoP sequence"""
        J, c = self.cop(axis); U, Sm, K, Ui = self.d('getCop%sLinearDynamic' % axis)
        return Ui.mul(J), Ui.mul(c - Sm.mul(self.st('getState' + axis)) - K)

OBJ = ('HumanoidCopCenteringObjective', 'HumanoidLipComJerkMinimizationObjective', 'HumanoidLipComVelocityTrackingObjective')
def objective(P, t, sc, cls, mode):
    w = Walker(P, sc); s = w.s; w.states('0')
    obj = s.new(cls, w.lip, w.feet, name='obj'); N, n = w.N, w.n; x = symv('x', n)
    ref = symv('ref', N * 2)
    if 'Velocity' in cls: s.call(obj, 'setVelRefInWorldFrame', ref)
    w.states(); nm = '%s<%s>' % (cls, sc)
    if mode == 'consistency': consistency(t, s, nm, obj, n, x); t.absorb(s.I); return
    cost = Cost(n)
    for k, a in enumerate('XY'):
        if 'CopCentering' in cls: cost.add(sel(N * k, N, n).T, M.zero(N, 1)); continue
        J, c = w.jerk(a)
        if 'Jerk' in cls: cost.add(J, c, w.W)
        else:
            U, Sm, K, _ = w.d('getComVelLinearDynamic')
            cost.add(U.mul(J), U.mul(c) + Sm.mul(w.st('getState' + a)) + K - part(ref, N * k, N), w.W)
    against(t, s, nm, obj, n, x, cost)
    t.absorb(s.I)

def constraint(P, t, sc, cls, nN, nM):
    """rows A(x + dx) + b <= 0 of the polygons of all samples (CoP) or previewed steps (feet), bounds on dx"""
    cop = 'Cop' in cls
    w = Walker(P, sc, nN, nM); s = w.s; N, Mp, n = w.N, w.M, w.n; w.states()
    con = s.new(cls, w.lip, w.feet, name='con'); x = symv('x', n)
    nm = '%s<%s>, %d samples, %d steps' % (cls, sc, nN, nM); kind = 'cop' if cop else 'kin'
    cnt = nN if cop else nM; base = ZERO if cop else N * 2; m = S.of(cnt)
    k = s.call(con, 'getNbConstraints'); tot = sum((w.poly(kind, i)[0] for i in range(cnt)), ZERO)
    t.eq(nm + ': number of rows', k, tot, s.where(), 'sum over the polygons')
    before = s.fork()
    G = s.call(con, 'getGradient', n); wg = s.where(); f = s.call(con, 'getFunction', x); wf = s.where()
    t.eq(nm + ': rows of the gradient', G.r, tot, wg, 'shape'); t.eq(nm + ': columns of the gradient', G.c, n, wg, 'shape')
    off = ZERO; J = []
    up = s.call(con, 'getSupBounds', x); wu = s.where(); lo = s.call(con, 'getInfBounds', x); wl = s.where()
    before.alone(t, nm, con, [('getGradient', (n,), G), ('getFunction', (x,), f), ('getSupBounds', (x,), up), ('getInfBounds', (x,), lo)])
    t.eq(nm + ': size of the upper bounds', up.r, m * 2, wu, 'shape'); t.eq(nm + ': size of the lower bounds', lo.r, m * 2, wl, 'shape')
    for i in range(cnt):
        r, ax, ay, b, bd = w.poly(kind, i)
        # the constrained point of sample/step i, on each axis: row of the decision vector and constant
        pt = []
        for k, a in enumerate('XY'):
            e = sel(base + m * k + i, ONE, n).T; c = ZERO
            if not cop:
                if i == 0: c = -w.sup[a].elem(ZERO, ZERO)
                else: e = e - sel(base + m * k + i - 1, ONE, n).T
            pt.append((e, c))
        want = ax.mul(pt[0][0]) + ay.mul(pt[1][0])
        t.eq('%s: rows of polygon %d' % (nm, i), G.block(off, ZERO, r, n), want, wg, 'half planes of the polygon applied to its point')
        fv = want.mul(x) + ax.scale(pt[0][1]) + ay.scale(pt[1][1]) + b
        t.eq('%s: function of polygon %d' % (nm, i), f.block(off, ZERO, r, ONE), fv, wf, 'half planes of the polygon at its point')
        for k, (a, sup, inf) in enumerate((('X', 'xs', 'xi'), ('Y', 'ys', 'yi'))):
            cur = pt[k][0].mul(x).elem(ZERO, ZERO) + pt[k][1]
            t.eq('%s: upper bound %s of polygon %d' % (nm, a, i), up.elem(m * k + i, ZERO), bd(sup) - cur, wu, 'bound minus the current point')
            t.eq('%s: lower bound %s of polygon %d' % (nm, a, i), lo.elem(m * k + i, ZERO), bd(inf) - cur, wl, 'bound minus the current point')
        off = off + r
    t.absorb(s.I)
