"""C14: after any reconfiguration the program handed to the solver is the one of the current configuration.
A generator is configured through its setters, one of them is called once more, and solve() is interpreted;
the program must be the one written with objectives and constraints constructed afterwards over the
generator's own models."""
from .walkgen import *
from .constraint import polygon_arg
from .objective import setrefs

class Conf:
    """arguments of the setters of a generator; each setter has its own symbols"""
    def __init__(self, g): self.g = g; self.s = g.s; self.N = None; self.refs = {}
    def pos(self, name, lo=S.of(1) / 1000): x = sym(name); FACTS.push(x - lo); return x

class TrajConf(Conf):
    G = Trajectory
    order = ('setNbSamples', 'setSamplingPeriod', 'setVelLimit', 'setAccLimit', 'setJerkLimit', 'setState', 'setVelRefInWorldFrame', 'setPosRefInWorldFrame', 'setWeightings', 'setConfig')
    models = ('NoDynamicModel',)
    ref = {'setVelRefInWorldFrame': 'VelocityTrackingObjective', 'setPosRefInWorldFrame': 'PositionTrackingObjective'}
    per = 1; moving = ('setState',)
    def arg(self, n, tag):
        v = n[3:] + tag
        if n == 'setNbSamples': self.N = sym('N' + tag, True, 1); return self.N
        if n == 'setSamplingPeriod': self.T = self.pos('T' + tag); self.trunc(); return self.T
        if n in self.ref: x = symv(v, self.N * self.per); self.refs[n] = x; return x
        if n == 'setWeightings':
            self.w = {k: self.pos('w_' + k + tag) for k, _, _ in self.G.objs}; return struct(self.s, self.G.wcls, 'w' + tag, self.w)
        if n == 'setConfig':
            self.flags = self.G.flags if not tag else self.G.flags[:1]
            return struct(self.s, self.G.ccls, 'c' + tag, {f: ONE if f in self.flags else ZERO for f in self.G.flags})
        return self.other(n, v)
    def trunc(self): FACTS.push(alg.uf('trunc', (self.T + self.s.eps) / self.T, integer=True) - 1)
    def other(self, n, v):
        if 'State' in n: return symv(v, 3)
        if 'Gravity' in n: return symv(v, 3)
        if 'Polygon' in n: return polygon_arg(self.s, 3, v)[0]
        if 'Limit' in n:
            x = self.pos(v, ZERO)
            if 'Jerk' in n: self.jl = x
            return x
        if 'Mass' in n or 'Height' in n: return self.pos(v)
        return sym(v)
    def apply(self, n, tag):
        self.s.call(self.g.o, n, self.arg(n, tag))
    def obj(self, cls):
        o = self.s.new(cls, *[self.model[m] for m in self.needs(cls)], name='fresh%s%d' % (cls, next(self.g.made)))
        for n, c in self.ref.items():
            if c == cls: self.s.call(o, n, self.refs[n])
        if cls == 'ComCenteringObjective': self.s.call(o, 'updateGravityShift')
        return o
    def needs(self, cls):
        fs = [f for f in self.s.P.fun.values() if f.get('cls') == self.s.cls(cls) and f.get('ctor') and not self.s.copyctor(f, self.s.cls(cls))]
        for f in fs:
            names = [p['t']['b'] for p in f['params']]
            if names and all(any(self.s.cls(m) == b for m in self.models) for b in names):
                return [m for b in names for m in self.models if self.s.cls(m) == b]
        raise ir.AnalysisBroken('constructor of %s' % cls)

class ZebConf(TrajConf):
    G = Zebulon; per = 2; moving = ('setBaseStateX', 'setBaseStateY', 'setComStateX', 'setComStateY')
    order = ('setNbSamples', 'setSamplingPeriod', 'setGravity', 'setBodyMass', 'setBaseMass', 'setComBodyHeight', 'setComBaseHeight', 'setBaseCopConvexPolygon', 'setBaseComConvexPolygon',
             'setTiltContactPointOnTheGroundInLocalFrameX', 'setTiltContactPointOnTheGroundInLocalFrameY', 'setBaseVelLimit', 'setBaseAccLimit', 'setBaseJerkLimit',
             'setBaseStateX', 'setBaseStateY', 'setBaseStateRoll', 'setBaseStatePitch', 'setBaseStateYaw', 'setComStateX', 'setComStateY',
             'setVelRefInWorldFrame', 'setPosRefInWorldFrame', 'setCopRefInLocalFrame', 'setComRefInLocalFrame', 'setWeightings', 'setConfig')
    models = ('LIPModel', 'BaseModel')
    ref = {'setVelRefInWorldFrame': 'BaseVelocityTrackingObjective', 'setPosRefInWorldFrame': 'BasePositionTrackingObjective', 'setCopRefInLocalFrame': 'CopCenteringObjective', 'setComRefInLocalFrame': 'ComCenteringObjective'}

RESET = {'setNbSamples'}
def base(P, sc, C):
    g = Gen(P, sc, C.G.cls); c = C(g)
    for n in C.order:
        if not g.s.has(g.o, n): raise ir.AnalysisBroken('%s::%s is gone' % (C.G.cls, n))
        c.apply(n, '')
    c.model = {m: g.member_of(m) for m in C.models}
    q, ret = g.run(c.pos('F0'))
    for n in C.moving: c.apply(n, '1')
    return g, c, q['sol']

def fresh(P, t, sc, C, names):
    g, c, X0 = base(P, sc, C); s0 = g.s
    for n in names:
        s = s0.fork(); g.s = c.s = s; keep = dict(c.__dict__); c.refs = dict(c.refs)
        if n: c.apply(n, "'")
        if n in RESET:
            for r in C.ref: c.apply(r, "'")
        nm = '%s<%s> %s' % (C.G.cls, sc, 'configured once' if not n else 'after %s' % n)
        F = c.pos("F")
        one = {}          # whether or not the solver found solutions
        X = M.zero(C.G.nvar(c.N), 1) if n in RESET else X0
        c.one = one; compare(t, g, c, nm, F, X)
        t.absorb(s.I)
        c.__dict__.clear(); c.__dict__.update(keep)

def compare(t, g, c, nm, F, X):
    G, s, N = c.G, g.s, c.N; nv = G.nvar(N)
    # objects made before solve(), which advances the states
    exp = []
    for wn, cls, z in G.objs:
        o = c.obj(cls); off, l = getattr(G, z)(N); E = sel(off, l, nv); x = X.block(off, ZERO, l, ONE)
        exp.append((wn, E.mul(s.call(o, 'getHessian')).mul(E.T), E.mul(s.call(o, 'getGradient', x))))
    con = {}
    for f in c.flags:
        cls, z, kind = G.cons[f]; o = c.obj(cls); off, l = getattr(G, z)(N); x = X.block(off, ZERO, l, ONE)
        fn = lambda n: s.call(o, n, x)
        lo, hi = {'low': lambda: (fn('getFunction'), None), 'eq': lambda: (fn('getFunction'),) * 2, 'both': lambda: (fn('getFunctionInf'), fn('getFunctionSup'))}[kind]()
        con[f] = (s.call(o, 'getNbConstraints'), s.call(o, 'getGradient').mul(sel(off, l, nv).T), lo, hi, cls)
    q, ret = g.run(F); where = s.where()
    one = dict(c.one)
    v = {n: alg.subst(q[n], one) for n in PARTS}
    rawQ = M.zero(nv, nv); rawp = M.zero(nv, 1)
    for wn, H, gr in exp: rawQ = rawQ + H.scale(c.w[wn]); rawp = rawp + gr.scale(c.w[wn])
    f = factor(v['Q'], rawQ); f = ONE if f is None else f
    t.eq(nm + ': Q', v['Q'], rawQ.scale(f), where, 'weighted Hessians of objectives constructed over the current models')
    t.eq(nm + ': p', v['p'], rawp.scale(f), where, 'weighted gradients of objectives constructed over the current models')
    t.fact(sign.positive(f), nm + ': scale of the cost is positive', where, clip(f), 'positive scale')
    best = None
    for order in itertools.permutations(c.flags):
        m = ZERO; parts = []
        for fl in order: parts.append((m,) + con[fl]); m = m + con[fl][0]
        A = M.zero(m, nv)
        for o, k, a, lo, hi, cls in parts: A = A + sel(o, k, m).mul(a)
        fa = factor(v['A'], A) if c.flags else ONE
        if best is None: best = (m, A, parts, fa)
        if fa is not None and alg.veq(v['A'], A.scale(fa)): best = (m, A, parts, fa); break
    m, A, parts, fa = best; fa = ONE if fa is None else fa
    if c.flags:
        t.eq(nm + ': A', v['A'], A.scale(fa), where, 'gradients of constraints constructed over the current models')
        t.fact(sign.positive(fa), nm + ': scale of the constraints is positive', where, clip(fa), 'positive scale')
    for o, k, a, lo, hi, cls in parts:
        for n, b in (('bl', lo), ('bu', hi)):
            if b is not None: t.eq('%s: %s of %s' % (nm, n, cls), v[n].block(o, ZERO, k, ONE), b.scale(fa), where, 'bounds of constraints constructed over the current models')
    if G.jerk[0] in c.flags:
        jo, jn = getattr(G, G.jerk[1])(N)
        for n, sg in (('xl', -1), ('xu', 1)): t.eq('%s: %s' % (nm, n), v[n].block(jo, ZERO, jn, ONE), M.const(jn, 1, c.jl * sg) - X.block(jo, ZERO, jn, ONE), where, 'current jerk limit')
    for n, x in (('nv', nv), ('nc', m)): t.eq('%s: %s the solver is built for' % (nm, {'nv': 'variables', 'nc': 'constraints'}[n]), q[n], x, where, 'size')

# ------------------------------------------------------------------ humanoid
CP = NS + 'ConvexPolygon'
class Hum:
    """the humanoid generator over an abstract feet supervisor whose published quantities all change with every
    call that may change it; one sample (two after setNbSamples), one previewed step, one half plane per
    polygon (two after a polygon setter)"""
    SETTERS = ('setSamplingPeriod', 'setStepPeriod', 'setInitialDoubleSupportLength', 'setLeftFootKinematicConvexPolygon', 'setRightFootKinematicConvexPolygon',
               'setLeftFootCopConvexPolygon', 'setRightFootCopConvexPolygon', 'setVelRefInWorldFrame', 'setLeftFootStateX', 'setRightFootStateY',
               'setComStateX', 'setComStateY', 'setComStateZ', 'setWeightings', 'setConfig', 'setNbSamples')
    def __init__(self, P, sc):
        self.P = P; self.v = 0; self.T = sym('Tsup'); self.N = S.of(1); self.M = S.of(1); self.rows = {'cop': 1, 'kin': 1}; self.fds = {}
        self.g = Gen(P, sc, 'HumanoidWalkgen', (self.install,)); self.s = self.g.s
    def install(self, g):
        s = self.s = g.s; self.g = g; P = self.P
        for f in P.fun.values():
            if f.get('cls') == s.cls('HumanoidFeetSupervisor') and not f.get('ctor') and f['ret']['b'] == 'void' and f.get('acc') == 'public': s.I.summ[(FS, f['n'])] = self.change(f['n'])
        two = lambda: self.N * 2
        get = {'getNbSamples': lambda: self.N, 'getNbPreviewedSteps': lambda: self.M, 'getRotationMatrix': lambda: self.symm('R', two(), two()), 'getRotationMatrixT': lambda: self.symm('R', two(), two()).T,
               'getMaximumNbOfCopConstraints': lambda: S.of(self.rows['cop']), 'getMaximumNbOfKinematicConstraints': lambda: S.of(self.rows['kin']),
               'getSampleWeightMatrix': lambda: M.of(matom('sym', ('W%d' % self.v,), self.N, self.N, name='W%d' % self.v, sym=True)),
               'getNbOfCallsBeforeNextSample': lambda: ONE, 'getFeetPosLinearDynamic': self.fd, 'isInDS': lambda: ZERO, 'getSamplingPeriod': lambda: self.T}
        for n in ('getLeftFootStateX', 'getLeftFootStateY', 'getSupportFootStateX', 'getSupportFootStateY'): get[n] = (lambda n: lambda: self.symm(n, S.of(3), ONE))(n)
        for n, v in get.items():
            if not any(f.get('cls') == s.cls('HumanoidFeetSupervisor') and f['n'] == n for f in P.fun.values()): raise ir.AnalysisBroken('%s::%s is gone' % (FS, n))
            s.I.summ[(FS, n)] = (lambda v: lambda I, st, o, a, e, fr: v())(v)
        for n in ('getCopConvexPolygon', 'getKinematicConvexPolygon'): s.I.summ[(FS, n)] = self.polygon('cop' if 'Cop' in n else 'kin')
        for n, k in (('getXSupBound', 'xs'), ('getXInfBound', 'xi'), ('getYSupBound', 'ys'), ('getYInfBound', 'yi')): s.I.summ[(CP, n)] = self.pol(k)
        for n, k in (('getGeneralConstraintsMatrixCoefsForX', 'ax'), ('getGeneralConstraintsMatrixCoefsForY', 'ay'), ('getGeneralConstraintsConstantPart', 'b')): s.I.summ[(CP, n)] = self.polv(k)
        s.I.summ[(CP, 'getNbGeneralConstraints')] = lambda I, st, o, a, e, fr: S.of(self.rows[o.path[0].split('.')[0]])
    def symm(self, n, r, c): return symm('%s%d' % (n, self.v), r, c)
    def change(self, name):
        def h(I, st, o, a, e, fr):
            self.v += 1
            if name == 'setNbSamples': self.N = I.load(st, a[0])
            elif 'ConvexPolygon' in name: self.rows['cop' if 'Cop' in name else 'kin'] = 2 if self.armed else 1
            elif name == 'updateTimeline': self.X = symv('X%d' % len(self.g.calls), self.N * 2 + self.M * 2); I.store(st, a[0], self.X)
            return ZERO
        return h
    armed = False
    def polygon(self, kind):
        return lambda I, st, o, a, e, fr: Loc(('%s.%d' % (kind, self.v), '[]'), (S.of(I.load(st, a[0])),), {'b': self.s.cls('ConvexPolygon'), 'rec': 1})
    def pol(self, k): return lambda I, st, o, a, e, fr: alg.uf('%s_%s' % (o.path[0], k), o.idx[0])
    def polv(self, k): return lambda I, st, o, a, e, fr: alg.ufm('%s_%s' % (o.path[0], k), self.rows[o.path[0].split('.')[0]], 1, o.idx[0])
    def fd(self):
        if self.v not in self.fds:
            s = self.s; fd = s.blank('LinearDynamic', 'undef', 'feetdyn%d' % self.v); U = self.symm('FU', self.N, self.M)
            for n, v in (('U', U), ('UT', U.T), ('S', self.symm('FS', self.N, ONE)), ('K', M.zero(self.N, 1))): s.I.store(s.st, s.I.member(s.st, fd, n, dict(s.I.fields(fd.t['b']))[n]), v)
            self.fds[self.v] = fd
        return self.fds[self.v]

def hum_apply(h, n, tag):
    s, g = h.s, h.g; v = n[3:] + tag
    def pos(name): x = sym(name); FACTS.push(x - S.of(1) / 1000); return x
    if n == 'setNbSamples': a = S.of(2 if tag else 1)
    elif n == 'setSamplingPeriod':
        a = h.T = pos('T' + tag); FACTS.push(alg.uf('trunc', (a + s.eps) / a, integer=True) - 1)
    elif n in ('setStepPeriod', 'setInitialDoubleSupportLength'):
        a = pos(v); FACTS.push(a - h.T)
    elif 'Polygon' in n: a = polygon_arg(s, 3, v)[0]
    elif n == 'setVelRefInWorldFrame': a = h.ref = symv(v, h.N * 2)
    elif n == 'setComStateZ': hh = sym('h' + tag); a = sel(ZERO, ONE, S.of(3)).mul(M.scalar(hh))
    elif 'State' in n: a = symv(v, 3)
    elif n == 'setWeightings': h.w = {k: pos('w_' + k + tag) for k, _ in HOBJ}; a = struct(s, 'HumanoidWalkgenWeighting', 'w' + tag, h.w)
    elif n == 'setConfig':
        h.flags = HFLAGS if not tag else HFLAGS[1:]
        a = struct(s, 'HumanoidWalkgenConfig', 'c' + tag, {f: ONE if f in h.flags else ZERO for f in HFLAGS})
    else: raise ir.AnalysisBroken(n)
    s.call(g.o, n, a)

def humanoid_fresh(P, t, sc, name):
    h = Hum(P, sc); g, s = h.g, h.s
    for n in ('setNbSamples', 'setSamplingPeriod') + tuple(x for x in Hum.SETTERS if x not in ('setNbSamples', 'setSamplingPeriod')): hum_apply(h, n, '')
    def feet(): 
        want = s.cls('HumanoidFeetSupervisor'); return [s.I.member(s.st, g.o, n, ty) for n, ty in s.I.fields(g.o.t['b']) if ty['b'] == want][0]
    lip = g.member_of('LIPModel'); exp = {}
    F = sym('F'); FACTS.push(F - S.of(1) / 1000); FACTS.push(h.T - F - S.of(1) / 1000); FACTS.push(alg.uf('trunc', (h.T + s.eps) / F, integer=True) - 1)
    g.run(F); h.armed = True
    for n in ('setComStateX', 'setComStateY'): hum_apply(h, n, '1')
    if name:
        hum_apply(h, name, "'")
        if name == 'setNbSamples': hum_apply(h, 'setVelRefInWorldFrame', "'")
        if name == 'setSamplingPeriod': FACTS.push(h.T - F - S.of(1) / 1000); FACTS.push(alg.uf('trunc', (h.T + s.eps) / F, integer=True) - 1)
    def hook(q):
        n = h.N * 2 + h.M * 2; X = h.X; feetl = feet()
        Q = M.zero(n, n); p = M.zero(n, 1)
        for k, c in HOBJ:
            o = s.new(c, lip, feetl, name='fresh' + c)
            if s.has(o, 'setVelRefInWorldFrame'): s.call(o, 'setVelRefInWorldFrame', h.ref)
            Q = Q + s.call(o, 'getHessian').scale(h.w[k]); p = p + s.call(o, 'getGradient', X).scale(h.w[k])
        rows = []
        for f in h.flags:
            c, _ = HROWS[f]; o = s.new(c, lip, feetl, name='fresh' + c)
            rows.append((f, s.call(o, 'getNbConstraints'), s.call(o, 'getGradient', n), s.call(o, 'getFunction', X), s.call(o, 'getInfBounds', X), s.call(o, 'getSupBounds', X)))
        exp.update(Q=Q, p=p, rows=rows, n=n)
    g.hook = hook; q, ret = g.run(F); where = s.where(); n = exp['n']
    nm = 'HumanoidWalkgen<%s> %s' % (sc, 'after ' + name if name else 'configured once')
    one = {}          # whether or not the solver found solutions
    v = {x: alg.subst(q[x], one) for x in PARTS}
    e = {x: alg.subst(exp[x], one) for x in 'Qp'}
    t.eq(nm + ': variables the solver is built for', q['nv'], n, where, 'size')
    f = factor(v['Q'], e['Q']); f = ONE if f is None else f
    t.eq(nm + ': Q', v['Q'], e['Q'].scale(f), where, 'weighted Hessians of objectives constructed over the current models')
    t.eq(nm + ': p', v['p'], e['p'].scale(f), where, 'weighted gradients of objectives constructed over the current models')
    best = None
    m = ZERO
    for r in exp['rows']: m = m + r[1]
    t.eq(nm + ': constraints the solver is built for', q['nc'], m, where, 'size')
    for order in itertools.permutations(exp['rows']):
        A = M.zero(m, n); b = M.zero(m, 1); o = ZERO
        for fl, k, a, fn, lo, hi in order:
            E = sel(o, k, m); A = A + E.mul(a); b = b + E.mul(alg.subst(fn, one)); o = o + k
        fa = factor(v['A'], A)
        if best is None: best = (A, b, fa)
        if fa is not None and alg.veq(v['A'], A.scale(fa)): best = (A, b, fa); break
    A, b, fa = best; fa = ONE if fa is None else fa
    t.eq(nm + ': A', v['A'], A.scale(fa), where, 'gradients of constraints constructed over the current models')
    for i in range(int(m.const())): capped(t, '%s: upper bound of row %d' % (nm, i), v['bu'].elem(S.of(i), ZERO), -b.elem(S.of(i), ZERO), 1, fa, where)
    for fl, k, a, fn, lo, hi in exp['rows']:
        o = ZERO if 'Cop' in fl else h.N * 2
        for x, y, sg in (('xl', lo, -1), ('xu', hi, 1)):
            for i in range(int(y.r.const())):
                capped(t, '%s: %s %d of %s' % (nm, x, i, HROWS[fl][0]), v[x].elem(o + i, ZERO), alg.subst(y, one).elem(S.of(i), ZERO), sg, ONE, where)
    t.absorb(s.I)
