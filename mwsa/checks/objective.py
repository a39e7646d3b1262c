"""Objectives: gradient and Hessian are those of one quadratic cost (C06), and the cost is the one the
objective is named after (C07 tracking/centering of the wheeled robot and trajectories, C08 humanoid)."""
from ..scen import *
from .. import alg, ir
from ..alg import S, M, FACTS, ZERO, ONE

def sel(k, n, tot): return M.E(S.of(k), n, tot)

def part(x, k, n): return x.block(S.of(k), ZERO, n, ONE)

class Pair:
    """a pendulum (upper body) and a wheeled base, configured symbolically, states set afterwards"""
    def __init__(self, P, sc, massless=False, cls=None, post=True):
        s = self.s = Scen(P, sc, dyn=True)
        N = self.N = sym('N', True, 1); T = self.T = sym('T'); FACTS.push(T - ONE / 1000)
        FACTS.push(alg.uf('trunc', (T + s.eps) / T, integer=True) - 1)
        self.mc, self.mb, self.hc, self.hb = (sym(x) for x in ('mc', 'mb', 'hc', 'hb')); self.g = symv('g', 3)
        self.tx, self.ty = sym('tiltx'), sym('tilty')
        FACTS.push(self.mc - S.of(1) / 1000); FACTS.push(self.mb - S.of(1) / 1000)
        lip = self.lip = s.new('LIPModel', N, T, ZERO, name='lip')
        base = self.base = s.new('BaseModel', N, T, ZERO, name='base')
        mt = self.mc if massless else self.mc + self.mb
        s.call(lip, 'setMass', ZERO); s.call(lip, 'setTotalMass', mt); s.call(lip, 'setMass', self.mc)
        s.call(base, 'setTotalMass', mt)
        if massless: self.mb = ZERO
        s.call(base, 'setMass', self.mb)
        s.call(lip, 'setComHeight', self.hc); s.call(base, 'setComHeight', self.hb)
        s.call(lip, 'setGravity', self.g); s.call(base, 'setGravity', self.g)
        for n, v in (('setTiltContactPointX', self.tx), ('setTiltContactPointY', self.ty)):
            if s.has(base, n): s.call(base, n, v)
        for n in ('Velocity', 'Acceleration', 'Jerk'):
            l = sym('lim' + n); FACTS.push(l); s.call(base, 'set%sLimit' % n, l)
        s.call(lip, 'computeDynamics'); s.call(base, 'computeDynamics')
    def states(self, tag=''):
        s = self.s
        for a in ('X', 'Y', 'Yaw'):
            s.call(self.lip, 'setState' + a, symv('com%s%s' % (a, tag), 3))
        for a in ('X', 'Y', 'Yaw', 'Roll', 'Pitch'):
            s.call(self.base, 'setState' + a, symv('base%s%s' % (a, tag), 3))
    def d(self, o, name, *a):
        """the linear dynamic a model publishes, as (U, S, K)"""
        last = getattr(self.s, 'last', None)
        l = self.s.call_raw(o, name, *a); self.s.last = last
        return tuple(self.s.leaf(l, x) for x in 'USK')
    def st(self, o, name):
        last = getattr(self.s, 'last', None); r = self.s.call(o, name); self.s.last = last; return r

class Cost:
    """1/2 sum_k |J_k x + c_k|^2_W : gradient J^T W (J x + c), Hessian J^T W J"""
    def __init__(self, nx): self.n = nx; self.terms = []
    def add(self, J, c, W=None): self.terms.append((J, c, W))
    def hessian(self):
        r = M.zero(self.n, self.n)
        for J, c, W in self.terms: r = r + (J.T.mul(W).mul(J) if W is not None else J.T.mul(J))
        return r
    def gradient(self, x):
        r = M.zero(self.n, 1)
        for J, c, W in self.terms:
            e = J.mul(x) + c
            r = r + (J.T.mul(W).mul(e) if W is not None else J.T.mul(e))
        return r

def consistency(t, s, nm, obj, n, x):
    before = s.fork()
    g = s.call(obj, 'getGradient', x); w = s.where()
    g0 = s.call(obj, 'getGradient', M.zero(n, 1))
    H = s.call(obj, 'getHessian')
    before.alone(t, nm, obj, [('getHessian', (), H)])
    t.eq(nm + ': gradient is affine with the Hessian as its slope', g - g0, H.mul(x), w, 'g(x)-g(0) = H x')
    t.eq(nm + ': Hessian is symmetric', H, H.T, s.where(), 'H = H^T')
    t.eq(nm + ': gradient rows', g.r, n, w, 'shape'); t.eq(nm + ': gradient columns', g.c, ONE, w, 'shape')
    t.eq(nm + ': Hessian rows', H.r, n, s.where(), 'shape'); t.eq(nm + ': Hessian columns', H.c, n, s.where(), 'shape')
    return g, H, w

def against(t, s, nm, obj, n, x, cost):
    g = s.call(obj, 'getGradient', x); w = s.where(); H = s.call(obj, 'getHessian')
    t.eq(nm + ': gradient', g, cost.gradient(x), w, 'gradient of the stated cost')
    t.eq(nm + ': Hessian', H, cost.hessian(), s.where(), 'second derivative of the stated cost')

# ------------------------------------------------------------------ wheeled robot
def ref2(name, N): return symv(name, N * 2)

def build(P, sc, cls, massless=False):
    p = Pair(P, sc, massless); s = p.s
    one = cls in ('BasePositionTrackingObjective', 'BaseVelocityTrackingObjective')
    p.states('0')
    obj = s.new(cls, p.base, name='obj') if one else s.new(cls, p.lip, p.base, name='obj')
    n = p.N * 2 if one else p.N * 4
    return p, s, obj, n

def axes(p):
    N = p.N; return (('X', 0, ZERO, N * 2), ('Y', 1, N, N * 3))

def spec_base(p, cost, dyn, ref):
    N = p.N; U, Sm, K = p.d(p.base, dyn)
    for a, i, k, _ in axes(p):
        cost.add(U.mul(sel(k, N, N * 2).T), Sm.mul(p.st(p.base, 'getState' + a)) + K - part(ref, k, N))

def spec_jerk(p, cost):
    N = p.N
    for k in range(4): cost.add(sel(N * k, N, N * 4).T, M.zero(N, 1))

def spec_com(p, cost, ref):
    N = p.N; Uc, Sc, Kc = p.d(p.lip, 'getComPosLinearDynamic'); Ub, Sb, Kb = p.d(p.base, 'getBasePosLinearDynamic')
    factor = (p.mc * p.hc + p.mb * p.hb) / (p.mc + p.mb)
    for a, i, k, kb in axes(p):
        shift = factor * p.g.elem(S.of(i), ZERO) / p.g.elem(S.of(2), ZERO)
        J = Uc.mul(sel(k, N, N * 4).T) - Ub.mul(sel(kb, N, N * 4).T)
        c = Sc.mul(p.st(p.lip, 'getState' + a)) + Kc - Sb.mul(p.st(p.base, 'getState' + a)) - Kb - part(ref, k, N) - M.const(N, 1, shift)
        cost.add(J, c)

def cop_terms(p, massless, a, i, k, kb):
    """CoP relative to the base on one axis: (J, c)"""
    N = p.N; Ub, Sb, Kb = p.d(p.base, 'getBasePosLinearDynamic')
    Uc, Sc, Kc = p.d(p.lip, 'getCop%sLinearDynamic' % a)
    J = Uc.mul(sel(k, N, N * 4).T) - Ub.mul(sel(kb, N, N * 4).T)
    c = Sc.mul(p.st(p.lip, 'getState' + a)) + Kc - Sb.mul(p.st(p.base, 'getState' + a)) - Kb
    if not massless:
        Uz, Sz, Kz = p.d(p.base, 'getCop%sLinearDynamic' % a)
        J = J + Uz.mul(sel(kb, N, N * 4).T); c = c + Sz.mul(p.st(p.base, 'getState' + a)) + Kz
    return J, c

def spec_cop(p, cost, ref, massless):
    for a, i, k, kb in axes(p):
        J, c = cop_terms(p, massless, a, i, k, kb)
        cost.add(J, c - part(ref, k, p.N))

def world_cop_ref(p, comp, coma, basep, basea):
    """CoP of the two masses following the given trajectories, relative to the base (one axis at a time)"""
    N = p.N; gz = p.g.elem(S.of(2), ZERO); r = M.zero(N * 2, 1)
    for a, i, k, _ in axes(p):
        gi = M.const(N, 1, p.g.elem(S.of(i), ZERO))
        z = part(comp, k, N).scale(p.mc) + part(basep, k, N).scale(p.mb) \
            - (part(coma, k, N) + gi).scale(p.mc * p.hc / gz) - (part(basea, k, N) + gi).scale(p.mb * p.hb / gz)
        r = r + sel(k, N, N * 2).mul(z.scale(1 / (p.mc + p.mb)) - part(basep, k, N))
    return r

GN = S.of(981) / 100
def tilt_rhs(p, a, k, kb, massterm=True):
    """A2 (c-d) - M L dd - m h cc - M g contact, as (J, c0)"""
    N = p.N; m, Mb, h, L = p.mc, p.mb, p.hc, p.hb; g = grav(p)
    Uc, Sc, Kc = p.d(p.lip, 'getComPosLinearDynamic'); Ua, Sa, Ka = p.d(p.lip, 'getComAccLinearDynamic')
    Ub, Sb, Kb = p.d(p.base, 'getBasePosLinearDynamic'); Ud, Sd, Kd = p.d(p.base, 'getBaseAccLinearDynamic')
    J = (Uc.scale(m * g) - Ua.scale(m * h)).mul(sel(k, N, N * 4).T) - (Ub.scale(m * g) + Ud.scale(Mb * L)).mul(sel(kb, N, N * 4).T)
    c = (Sc.scale(m * g) - Sa.scale(m * h)).mul(p.st(p.lip, 'getState' + a)) - (Sb.scale(m * g) + Sd.scale(Mb * L)).mul(p.st(p.base, 'getState' + a))
    c = c - M.const(N, 1, Mb * g * (p.tx if a == 'X' else p.ty))
    return J, c

def grav(p):
    s = p.s
    return s.static_value('Constant<%s>::GRAVITY_NORM' % s.scalar) if hasattr(s, 'static_value') else GN

def spec_tilt(p, cost, vel):
    """psi solves g(mh+ML) psi - (mhh+MLL) ddpsi = m g (c-d) - M L ddd - m h ddc - M g contact"""
    N = p.N; m, Mb, h, L = p.mc, p.mb, p.hc, p.hb; g = grav(p)
    Up, Sp, Kp = p.d(p.base, 'getBaseTiltAngleLinearDynamic')
    Uv, Sv, Kv = p.d(p.base, 'getBaseTiltAngularVelLinearDynamic')
    A1 = g * (m * h + Mb * L); A6 = m * h * h + Mb * L * L
    Ui = alg.inverse(Up)
    for a, i, k, kb in axes(p):
        J, c = tilt_rhs(p, a, k, kb)
        st = p.st(p.base, 'getState' + ('Roll' if a == 'X' else 'Pitch')).block(ZERO, ZERO, S.of(2), ONE)
        # ddpsi = Up^-1 (psi - Sp st)
        if not vel:
            B = alg.inverse(M.identity(N).scale(A1) - Ui.scale(A6))
            cost.add(B.mul(J), B.mul(c - Ui.mul(Sp).mul(st).scale(A6)))
        else:
            # psi' = Uv ddpsi + Sv st ;  with  (A1 Up - A6) ddpsi = rhs - A1 Sp st
            B = alg.inverse(Up.mul(alg.inverse(Uv)).scale(A1) - Up.mul(alg.inverse(Uv)).mul(Ui).scale(A6))
            cost.add(B.mul(J), B.mul(c - Ui.mul(Sp).mul(st).scale(A6)) - Uv.mul(Ui).mul(Sp).mul(st) + Sv.mul(st))

WHEELED = ('BasePositionTrackingObjective', 'BaseVelocityTrackingObjective', 'JerkMinimizationObjective', 'ComCenteringObjective',
           'CopCenteringObjective', 'TiltMinimizationObjective', 'TiltVelMinimizationObjective')

def setrefs(p, s, obj, cls):
    N = p.N; ref = ref2('ref', N)
    m = {'BasePositionTrackingObjective': 'setPosRefInWorldFrame', 'BaseVelocityTrackingObjective': 'setVelRefInWorldFrame',
         'ComCenteringObjective': 'setComRefInLocalFrame', 'CopCenteringObjective': 'setCopRefInLocalFrame'}.get(cls)
    if m: s.call(obj, m, ref)
    if cls == 'ComCenteringObjective': s.call(obj, 'updateGravityShift')
    return ref

def wheeled(P, t, sc, cls, massless, mode):
    p, s, obj, n = build(P, sc, cls, massless); N = p.N
    ref = setrefs(p, s, obj, cls); p.states()
    x = symv('x', n)
    nm = '%s<%s>%s' % (cls, sc, ' massless base' if massless else '')
    if mode == 'consistency':
        consistency(t, s, nm, obj, n, x); t.absorb(s.I); return
    cost = Cost(n)
    if cls == 'BasePositionTrackingObjective': spec_base(p, cost, 'getBasePosLinearDynamic', ref)
    elif cls == 'BaseVelocityTrackingObjective': spec_base(p, cost, 'getBaseVelLinearDynamic', ref)
    elif cls == 'JerkMinimizationObjective': spec_jerk(p, cost)
    elif cls == 'ComCenteringObjective': spec_com(p, cost, ref)
    elif cls == 'CopCenteringObjective': spec_cop(p, cost, ref, massless)
    elif cls == 'TiltMinimizationObjective': spec_tilt(p, cost, False)
    elif cls == 'TiltVelMinimizationObjective': spec_tilt(p, cost, True)
    against(t, s, nm, obj, n, x, cost)
    if cls == 'CopCenteringObjective':
        f = s.fork(); tr = [symv(k, N * 2) for k in ('comp', 'coma', 'basep', 'basea')]
        f.call(obj, 'setCopRefInWorldFrame', *tr); f0 = f.last
        cost = Cost(n); p.s = f; spec_cop(p, cost, world_cop_ref(p, *tr), massless); p.s = s
        g = f.call(obj, 'getGradient', x); f.last = f0
        t.eq(nm + ': gradient with a world frame reference', g, cost.gradient(x), f.where(), 'CoP of the two masses following the reference')
    t.absorb(s.I)

# ------------------------------------------------------------------ trajectory
TRAJ = {'PositionTrackingObjective': ('getPosLinearDynamic', 'setPosRefInWorldFrame'), 'VelocityTrackingObjective': ('getVelLinearDynamic', 'setVelRefInWorldFrame'),
        'TrajectoryJerkMinimizationObjective': (None, None)}
def point(P, sc):
    s = Scen(P, sc, dyn=True); N = sym('N', True, 1); T = sym('T'); FACTS.push(T - ONE / 1000)
    mdl = s.new('NoDynamicModel', N, T, ONE, name='mdl')
    for n in ('Velocity', 'Acceleration', 'Jerk'):
        l = sym('lim' + n); FACTS.push(l); s.call(mdl, 'set%sLimit' % n, l)
    return s, mdl, N
def traj(P, t, sc, cls, mode):
    s, mdl, N = point(P, sc)
    obj = s.new(cls, mdl, name='obj'); x = symv('x', N); ref = symv('ref', N)
    g, r = TRAJ[cls]
    if r: s.call(obj, r, ref)
    s.call(mdl, 'setState', symv('st', 3))
    nm = '%s<%s>' % (cls, sc)
    if mode == 'consistency': consistency(t, s, nm, obj, N, x); t.absorb(s.I); return
    cost = Cost(N)
    if g:
        l = s.call_raw(mdl, g); U, Sm, K = (s.leaf(l, z) for z in 'USK')
        cost.add(U, Sm.mul(s.call(mdl, 'getState')) + K - ref)
    else: cost.add(M.identity(N), M.zero(N, 1))
    against(t, s, nm, obj, N, x, cost)
    t.absorb(s.I)
