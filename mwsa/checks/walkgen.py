"""Generators: what they hand to the QP solver, what they do with its answer, and what a reconfiguration
changes.  The solver is represented by its interface contract (qpsolver.h): it is built for a number of
variables and constraints, ignores Q and A when warm started after a first call, writes its answer and
reports whether it is a solution."""
from ..scen import *
from .. import alg, ir, sign, interp
from ..alg import S, M, FACTS, ZERO, ONE, atom
from ..chk import decide, clip
from .objective import sel, part
from ..interp import Opq

QPS = NS + 'QPSolver'
PARTS = ('Q', 'p', 'A', 'bl', 'bu', 'xl', 'xu')
BIG = S.of(10) ** 11

def boolean(name): return S.of(atom('sym', (name,), name=name, boolean=True, integer=True, lb=0))

class Gen:
    """a generator with the solver replaced by its contract"""
    def __init__(self, P, sc, cls, abstract=()):
        s = self.s = Scen(P, sc, dyn=True); self.calls = []; self.made = itertools.count(); self.hook = None
        s.I.summ[NS + 'makeQPSolver'] = self.make
        for f in P.fun.values():
            if f['n'] == 'makeQPSolver' or f['q'].startswith(NS + 'makeQPSolver'): s.I.summ[f['id']] = self.make
        s.I.summ[(QPS, 'solve')] = self.solve
        s.I.summ[(QPS, 'getNbVar')] = lambda I, st, o, a, e, fr: self.leaf(st, o, '#nv')
        s.I.summ[(QPS, 'getNbCtr')] = lambda I, st, o, a, e, fr: self.leaf(st, o, '#nc')
        for a in abstract: a(self)
        self.o = s.new(cls, name='gen')
    TY = {'#nv': {'b': 'int'}, '#nc': {'b': 'int'}, '#hot': {'b': 'bool'}, '#Q': {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': -1}, '#A': {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': -1}}
    def sub(self, o, n): return Loc(o.path + (n,), o.idx, self.TY[n])
    def leaf(self, st, o, n): return self.s.I.read(st, self.sub(o, n))
    def put(self, st, o, n, v): self.s.I.write(st, self.sub(o, n), v)
    def make(self, I, st, obj, args, e, fr):
        l = Loc(('H', next(I.tmp)), (), {'b': QPS + '<%s>' % self.s.scalar, 'rec': 1})
        nv, nc = (I.load(st, a) for a in args[:2])
        for n, v in (('#nv', nv), ('#nc', nc), ('#hot', ZERO), ('#Q', M.zero(ZERO, ZERO)), ('#A', M.zero(ZERO, ZERO))): self.put(st, l, n, v)
        return Ptr([(ONE, l)])
    def solve(self, I, st, obj, args, e, fr):
        m = args[0]; k = len(self.calls)
        if isinstance(m, Ptr): m = I.deref(m)
        fs = dict(I.fields(loc_t(m)['b']))
        q = {n: I.load(st, I.member(st, m, n, fs[n])) for n in PARTS}
        warm = I.load(st, args[3]) if len(args) > 3 and args[3] is not None else ZERO
        hot = self.leaf(st, obj, '#hot')
        use = hot * warm
        q['Qgiven'], q['Agiven'] = q['Q'], q['A']
        if not use.is0():
            for n in 'QA':
                old = self.leaf(st, obj, '#' + n)
                q[n] = old if use.is1() else interp.vite(use, old, q[n])
        for n in 'QA': self.put(st, obj, '#' + n, q[n])
        self.put(st, obj, '#hot', ONE)
        q['nv'], q['nc'] = self.leaf(st, obj, '#nv'), self.leaf(st, obj, '#nc')
        q['pc'] = st.pc; q['iter'] = I.load(st, args[1])
        q['sol'] = symv('sol%d' % k, q['p'].r); q['found'] = boolean('found%d' % k)
        if self.hook:
            keep, self.s.st = self.s.st, State(dict(st.mem))
            try: self.hook(q)
            finally: self.s.st = keep
        I.store(st, args[2], q['sol'])
        self.calls.append(q)
        return q['found']
    def run(self, *args):
        """one call of solve(): (what the solver was given, what solve() returned)"""
        n = len(self.calls); r = self.s.call(self.o, 'solve', *args)
        if len(self.calls) != n + 1: raise ir.AnalysisBroken('solve() of the generator reaches the solver %d times' % (len(self.calls) - n))
        return self.calls[-1], r
    def member_of(self, cls):
        """the data member that holds the model of the given class"""
        want = self.s.cls(cls)
        c = [(n, t) for n, t in self.s.I.fields(self.o.t['b']) if t['b'] == want]
        if len(c) != 1: raise ir.AnalysisBroken('%s has %d members of class %s' % (self.o.t['b'], len(c), cls))
        return self.s.I.member(self.s.st, self.o, c[0][0], c[0][1])

# ------------------------------------------------------------------ abstract objectives and constraints
def abs_objective(cls, n, points=None):
    """gradient and Hessian as functions of the point they are asked for"""
    def h(g):
        s = g.s; c = NS + cls
        if s.cls(cls) is None: raise ir.AnalysisBroken(cls)
        s.I.summ[(c, 'getHessian')] = lambda I, st, o, a, e, fr: M.of(matom('sym', ('H.' + cls,), n(g), n(g), name='H.' + cls, sym=True))
        def grad(I, st, o, a, e, fr):
            x = I.load(st, a[0])
            if points is not None: points.append(x)
            return alg.ufm('G.' + cls, n(g), 1, x)
        s.I.summ[(c, 'getGradient')] = grad
    return h
from ..alg import matom
def abs_constraint(cls, cols, fun=('getFunction',)):
    def h(g):
        s = g.s; c = NS + cls; s.cls(cls); m = sym('m.' + cls, True, 1)
        s.I.summ[(c, 'getNbConstraints')] = lambda I, st, o, a, e, fr: m
        s.I.summ[(c, 'getGradient')] = lambda I, st, o, a, e, fr: symm('A.' + cls, m, cols(g))
        for f in fun:
            s.I.summ[(c, f)] = (lambda f: lambda I, st, o, a, e, fr: alg.ufm('%s.%s' % (f, cls), m, 1, I.load(st, a[0])))(f)
    return h

def struct(s, cls, name, vals):
    o = s.new(cls, name=name)
    for k, v in vals.items(): s.set(o, k, v)
    return o

# ------------------------------------------------------------------ C12: assembly of the quadratic program
class Zebulon:
    cls = 'ZebulonWalkgen'; wcls = 'ZebulonWalkgenWeighting'; ccls = 'ZebulonWalkgenConfig'
    flags = ('withCopConstraints', 'withBaseMotionConstraints', 'withComConstraints', 'withTiltMotionConstraints')
    nvar = staticmethod(lambda N: N * 4)
    full = staticmethod(lambda N: (ZERO, N * 4))
    base = staticmethod(lambda N: (N * 2, N * 2))
    objs = (('velocityTracking', 'BaseVelocityTrackingObjective', 'base'), ('positionTracking', 'BasePositionTrackingObjective', 'base'),
            ('copCentering', 'CopCenteringObjective', 'full'), ('comCentering', 'ComCenteringObjective', 'full'),
            ('jerkMinimization', 'JerkMinimizationObjective', 'full'), ('tiltMinimization', 'TiltMinimizationObjective', 'full'),
            ('tiltVelMinimization', 'TiltVelMinimizationObjective', 'full'))
    cons = {'withCopConstraints': ('CopConstraint', 'full', 'low'), 'withBaseMotionConstraints': ('BaseMotionConstraint', 'base', 'both'),
            'withComConstraints': ('ComConstraint', 'full', 'low'), 'withTiltMotionConstraints': ('TiltMotionConstraint', 'full', 'eq')}
    jerk = ('withBaseMotionConstraints', 'base', 'setBaseJerkLimit')
class Trajectory:
    cls = 'TrajectoryWalkgen'; wcls = 'TrajectoryWalkgenWeighting'; ccls = 'TrajectoryWalkgenConfig'
    flags = ('withMotionConstraints',)
    nvar = staticmethod(lambda N: N)
    full = staticmethod(lambda N: (ZERO, N))
    objs = (('velocityTracking', 'VelocityTrackingObjective', 'full'), ('positionTracking', 'PositionTrackingObjective', 'full'),
            ('jerkMinimization', 'TrajectoryJerkMinimizationObjective', 'full'))
    cons = {'withMotionConstraints': ('MotionConstraint', 'full', 'both')}
    jerk = ('withMotionConstraints', 'full', 'setJerkLimit')

def abstracted(G, N):
    r = [abs_objective(c, lambda g, z=z: getattr(G, z)(N)[1]) for _, c, z in G.objs]
    for c, z, kind in G.cons.values():
        r.append(abs_constraint(c, lambda g, z=z: getattr(G, z)(N)[1], ('getFunctionInf', 'getFunctionSup') if kind == 'both' else ('getFunction',)))
    return r

def setting(G, g, flags, N):
    s = g.s
    s.call(g.o, 'setNbSamples', N)
    w = {k: sym('w_' + k) for k, _, _ in G.objs}
    for v in w.values(): FACTS.push(v)
    s.call(g.o, 'setWeightings', struct(s, G.wcls, 'w', w))
    s.call(g.o, 'setConfig', struct(s, G.ccls, 'c', {f: ONE if f in flags else ZERO for f in G.flags}))
    jl = sym('jerkLimit'); FACTS.push(jl); s.call(g.o, G.jerk[2], jl)
    return w, jl

def factor(x, raw):
    """f with x = f * raw, read off the normal forms (None when they have no common term)"""
    for m, c in sorted(raw.t.items(), key=lambda mc: str(mc[0])):
        if m in x.t: return x.t[m] / c
    return None

def rows(G, flags, N, X, order):
    """(total rows, raw A, [(offset, length, lower, upper)])"""
    parts = []; m = ZERO; nv = G.nvar(N)
    for f in order:
        c, z, kind = G.cons[f]; k = sym('m.' + c, True, 1); o, l = getattr(G, z)(N)
        x = X.block(o, ZERO, l, ONE)
        fn = lambda n: alg.ufm('%s.%s' % (n, c), k, 1, x)
        lo, hi = {'low': lambda: (fn('getFunction'), None), 'eq': lambda: (fn('getFunction'),) * 2, 'both': lambda: (fn('getFunctionInf'), fn('getFunctionSup'))}[kind]()
        parts.append((m, k, symm('A.' + c, k, l).mul(sel(o, l, nv).T), lo, hi, c)); m = m + k
    A = M.zero(m, nv)
    for o, k, a, lo, hi, c in parts: A = A + sel(o, k, m).mul(a)
    return m, A, parts

def positive_weights(x, w):
    """value when every weight is positive"""
    return alg.subst(x, {next(iter(alg.lt0(-v).atoms())): ONE for v in w.values() if alg.lt0(-v).atoms()})

def small(w): return {next(iter(v.atoms())): v / 10 ** 7 for v in w.values()}

def unbounded(t, nm, v, f, sg, where):
    """every entry is a constant beyond any reasonable bound, up to the normalisation"""
    i = S.of(atom('sym', ('row',), name='row', integer=True, lb=0))
    n0 = len(FACTS.l); FACTS.push(v.r - 1 - i); e = v.elem(i, ZERO) * sg; FACTS.release(n0)
    ok = any(z.const() is not None and z.const() >= 10 ** 6 for z in (e, e / f if f is not None else e))
    t.fact(ok, nm, where, 'entry %s is a bound' % e, 'no bound on this side')

def assembly(P, t, sc, G, flags):
    N = sym('N', True, 1); nv = G.nvar(N)
    g = Gen(P, sc, G.cls, abstracted(G, N)); s = g.s
    w, jl = setting(G, g, flags, N)
    X = M.zero(nv, 1)
    tag = '%s<%s> with %s' % (G.cls, sc, '+'.join(f[4:] for f in flags) or 'no constraints')
    for k, F in enumerate((sym('F0'), sym('F1'))):
        FACTS.push(F - ONE / 1000)
        q, ret = g.run(F); where = s.where(); nm = '%s, solve %d' % (tag, k + 1)
        t.fact(q['pc'].is1(), nm + ': solver called unconditionally', where, 'called only when %s' % q['pc'], 'one call per solve')
        t.eq(nm + ': solve reports what the solver reports', ret, q['found'], where, 'returned value')
        one = {}          # whether or not the solver found a solution
        v = {n: positive_weights(alg.subst(q[n], one), w) for n in PARTS}
        for n, r, c in (('Q', nv, nv), ('p', nv, ONE), ('xl', nv, ONE), ('xu', nv, ONE)):
            t.eq('%s: rows of %s' % (nm, n), v[n].r, r, where, 'size'); t.eq('%s: columns of %s' % (nm, n), v[n].c, c, where, 'size')
        t.eq(nm + ': variables the solver is built for', q['nv'], nv, where, 'size')
        rawQ = M.zero(nv, nv); rawp = M.zero(nv, 1)
        for wn, c, z in G.objs:
            o, l = getattr(G, z)(N); E = sel(o, l, nv)
            rawQ = rawQ + E.mul(M.of(matom('sym', ('H.' + c,), l, l, name='H.' + c, sym=True)).scale(w[wn])).mul(E.T)
            rawp = rawp + E.mul(alg.ufm('G.' + c, l, 1, X.block(o, ZERO, l, ONE)).scale(w[wn]))
        f = factor(v['Q'], rawQ)
        if f is None: f = ONE
        t.eq(nm + ': Q', v['Q'], rawQ.scale(f), where, 'weighted sum of the Hessians')
        t.eq(nm + ': p', v['p'], rawp.scale(f), where, 'weighted sum of the gradients at the current jerk, scaled like Q')
        t.fact(sign.positive(f), nm + ': scale of the cost is positive', where, 'Q and p are multiplied by %s' % clip(f), 'the minimiser of a positive multiple is that of the cost')
        if k:
            for n, r in (('Q', rawQ), ('p', rawp)):
                t.eq('%s: %s with tiny weights' % (nm, n), alg.subst(v[n], small(w)), alg.subst(r.scale(f), small(w)), where, 'no weight is neglected')
        for wn in w if k else ():
            z = {next(iter(w[wn].atoms())): ZERO}
            r0 = {n: positive_weights(alg.subst(alg.subst(q[n], one), z), w) for n in 'Qp'}
            f0 = factor(r0['Q'], alg.subst(rawQ, z)); f0 = ONE if f0 is None else f0
            t.eq('%s: Q without %s' % (nm, wn), r0['Q'], alg.subst(rawQ, z).scale(f0), where, 'a zero weight switches the objective off')
            t.eq('%s: p without %s' % (nm, wn), r0['p'], alg.subst(rawp, z).scale(f0), where, 'a zero weight switches the objective off')
        # constraints
        best = None
        for order in itertools.permutations(flags):
            m, A, parts = rows(G, flags, N, X, order)
            fa = factor(v['A'], A) if flags else ONE
            if best is None: best = (m, A, parts, fa)
            if fa is not None and alg.veq(v['A'], A.scale(fa)): best = (m, A, parts, fa); break
        m, A, parts, fa = best; fa = ONE if fa is None else fa
        t.eq(nm + ': constraints the solver is built for', q['nc'], m, where, 'size')
        for n in ('A', 'bl', 'bu'): t.eq('%s: rows of %s' % (nm, n), v[n].r, m, where, 'size')
        t.eq(nm + ': columns of A', v['A'].c, nv, where, 'size')
        if flags:
            t.eq(nm + ': A', v['A'], A.scale(fa), where, 'constraint gradients, one block of rows per enabled constraint')
            t.fact(sign.positive(fa), nm + ': scale of the constraints is positive', where, 'A is multiplied by %s' % clip(fa), 'rows scaled by a positive factor')
        for o, l, a, lo, hi, c in parts:
            for n, b, sg in (('bl', lo, -1), ('bu', hi, 1)):
                x = v[n].block(o, ZERO, l, ONE)
                if b is None: unbounded(t, '%s: %s of %s' % (nm, n, c), x, fa, sg, where)
                else: t.eq('%s: %s of %s' % (nm, n, c), x, b.scale(fa), where, 'bound of the constraint at the current jerk, scaled like A')
        jo, jn = getattr(G, G.jerk[1])(N); lim = G.jerk[0] in flags
        for n, sg in (('xl', -1), ('xu', 1)):
            if lim:
                t.eq('%s: %s of the limited jerks' % (nm, n), v[n].block(jo, ZERO, jn, ONE), M.const(jn, 1, jl * sg) - X.block(jo, ZERO, jn, ONE), where, 'jerk limit minus the current jerk, unscaled')
                if not jo.is0(): unbounded(t, '%s: %s of the other jerks' % (nm, n), v[n].block(ZERO, ZERO, jo, ONE), None, sg, where)
            else: unbounded(t, '%s: %s' % (nm, n), v[n], None, sg, where)
        X = X + q['sol']
    t.absorb(s.I)

# ------------------------------------------------------------------ humanoid
FS = NS + 'HumanoidFeetSupervisor'
HOBJ = (('velocityTracking', 'HumanoidLipComVelocityTrackingObjective'), ('jerkMinimization', 'HumanoidLipComJerkMinimizationObjective'), ('copCentering', 'HumanoidCopCenteringObjective'))
HFLAGS = ('withCopConstraints', 'withFeetConstraints')
HROWS = {'withCopConstraints': ('HumanoidCopConstraint', 2), 'withFeetConstraints': ('HumanoidFootConstraint', 1)}

class Humanoid:
    """the humanoid generator over an abstract feet supervisor: its public getters return symbols related as
    the supervisor's own properties state, its mutators are recorded"""
    def __init__(self, P, sc, flags, steps):
        N = self.N = sym('N', True, 1); self.M = S.of(steps); self.P = P
        self.k = S.of(1); self.points = []   # samples the slots are built for
        self.rec = []; self.flags = flags; self.ds = ONE
        def absall(g):
            s = self.s = g.s
            for f in P.fun.values():
                if f.get('cls') == s.cls('HumanoidFeetSupervisor') and not f.get('ctor') and f['ret']['b'] == 'void' and f.get('acc') == 'public':
                    s.I.summ[(FS, f['n'])] = self.record(f['n'])
            s.I.summ[(FS, 'updateTimeline')] = self.timeline
            self.R = symm('R', N * 2, N * 2); self.FU = symm('FU', N, self.M); self.FSm = symm('FS', N, 1); self.calls = sym('calls', True, 1)
            self.foot = {n: symv(n, 3) for n in ('LeftX', 'LeftY', 'supX', 'supY')}
            get = {'getNbSamples': lambda: self.k, 'getNbPreviewedSteps': lambda: self.M, 'getRotationMatrix': lambda: self.R, 'getRotationMatrixT': lambda: self.R.T,
                   'getMaximumNbOfCopConstraints': lambda: S.of(2), 'getMaximumNbOfKinematicConstraints': lambda: S.of(1),
                   'getLeftFootStateX': lambda: self.foot['LeftX'], 'getLeftFootStateY': lambda: self.foot['LeftY'], 'getSupportFootStateX': lambda: self.foot['supX'], 'getSupportFootStateY': lambda: self.foot['supY'],
                   'getNbOfCallsBeforeNextSample': lambda: self.calls, 'getFeetPosLinearDynamic': lambda: self.fd(), 'isInDS': lambda: self.ds}
            for n, v in get.items():
                if not any(f.get('cls') == s.cls('HumanoidFeetSupervisor') and f['n'] == n for f in P.fun.values()): raise ir.AnalysisBroken('%s::%s is gone' % (FS, n))
                s.I.summ[(FS, n)] = (lambda v: lambda I, st, o, a, e, fr: v())(v)
        n = self.n = N * 2 + self.M * 2
        ab = [absall] + [abs_objective(c, lambda g: n, self.points) for _, c in HOBJ]
        for f, (c, m) in HROWS.items(): ab.append(self.constraint(c, m if f != 'withFeetConstraints' else (m if steps else 0), f))
        self.g = Gen(P, sc, 'HumanoidWalkgen', ab); self._fd = None
    def bounds(self, c): return self.N * 2 if 'Cop' in c else self.M * 2
    def constraint(self, c, m, flag):
        def h(g):
            s = g.s; k = (NS + c,)
            s.I.summ[k + ('getNbConstraints',)] = lambda I, st, o, a, e, fr: S.of(m)
            s.I.summ[k + ('getGradient',)] = lambda I, st, o, a, e, fr: alg.ufm('A.' + c, m, self.n, I.load(st, a[0]))
            s.I.summ[k + ('getFunction',)] = lambda I, st, o, a, e, fr: alg.ufm('b.' + c, m, 1, I.load(st, a[0]))
            s.I.summ[k + ('getSupBounds',)] = lambda I, st, o, a, e, fr: alg.ufm('sup.' + c, self.bounds(c), 1, I.load(st, a[0]))
            s.I.summ[k + ('getInfBounds',)] = lambda I, st, o, a, e, fr: alg.ufm('inf.' + c, self.bounds(c), 1, I.load(st, a[0]))
            s.I.summ[k + ('computeConstantPart',)] = lambda I, st, o, a, e, fr: ZERO
        return h
    def record(self, name):
        def h(I, st, o, a, e, fr):
            self.rec.append((name, [I.load(st, x) for x in a], st.pc)); return ZERO
        return h
    def timeline(self, I, st, o, a, e, fr):
        self.rec.append(('updateTimeline', [I.load(st, x) for x in a], st.pc))
        self.X = symv('X%d' % len(self.g.calls), self.n); I.store(st, a[0], self.X); return ZERO
    def fd(self):
        if self._fd is None:
            s = self.s; fd = s.new('LinearDynamic', name='feetdyn')
            for n, v in (('U', self.FU), ('UT', self.FU.T), ('S', self.FSm), ('K', M.zero(self.N, 1))):
                s.I.store(s.st, s.I.member(s.st, fd, n, dict(s.I.fields(fd.t['b']))[n]), v)
            self._fd = fd
        return self._fd

def humanoid(P, t, sc, flags, steps, same, mode):
    h = Humanoid(P, sc, flags, steps); g, s = h.g, h.s; N, Mp, n = h.N, h.M, h.n
    T = sym('T'); FACTS.push(T - ONE / 1000); Fb = T if same else sym('F')
    if not same: FACTS.push(Fb - ONE / 1000); FACTS.push(T - Fb - ONE / 1000)
    nbf = alg.uf('trunc', (T + s.eps) / Fb, integer=True); FACTS.push(nbf - 1); FACTS.push(nbf - h.calls)
    FACTS.push(alg.uf('trunc', (T + s.eps) / T, integer=True) - 1)
    s.call(g.o, 'setNbSamples', N); s.call(g.o, 'setSamplingPeriod', T)
    hh = sym('h'); s.call(g.o, 'setComStateZ', M.build([[hh], [ZERO], [ZERO]]) if hasattr(M, 'build') else sel(ZERO, ONE, S.of(3)).mul(M.scalar(hh)))
    w = {k: sym('w_' + k) for k, _ in HOBJ}
    for v in w.values(): FACTS.push(v)
    s.call(g.o, 'setWeightings', struct(s, 'HumanoidWalkgenWeighting', 'w', w))
    s.call(g.o, 'setConfig', struct(s, 'HumanoidWalkgenConfig', 'c', {f: ONE if f in flags else ZERO for f in HFLAGS}))
    com = {a: symv('com' + a, 3) for a in 'XY'}
    for a in 'XY': s.call(g.o, 'setComState' + a, com[a])
    h.k = N; h.fd()
    tag = 'HumanoidWalkgen<%s> with %s, %d steps%s' % (sc, '+'.join(f[4:] for f in flags) or 'no constraints', steps, '' if same else ', shorter feedback period')
    gn = s.I.load(s.st, s.I.static_var('Constant<%s>::GRAVITY_NORM' % sc)) if hasattr(s.I, 'static_var') else S.of(981) / 100
    lip = g.member_of('LIPModel')
    prev = None
    for k in range(2):
        if k:             # walking by now: a change of the motion request leaves the plan alone
            h.ds = ZERO; s.call(g.o, 'setMove', boolean('move'))
        h.rec.clear(); h.points.clear()
        for a in 'XY':
            com[a] = symv('com%s%d' % (a, k), 3); s.call(g.o, 'setComState' + a, com[a])
        q, ret = g.run(Fb); where = s.where(); nm = '%s, solve %d' % (tag, k + 1)
        X = h.X
        if k == 0:
            z = [com[a].elem(ZERO, ZERO) - hh * com[a].elem(S.of(2), ZERO) / gn - h.foot['Left' + a].elem(ZERO, ZERO) for a in 'XY']
            c = sel(ZERO, N, N * 2).mul(M.const(N, 1, z[0])) + sel(N, N, N * 2).mul(M.const(N, 1, z[1]))
            X = sel(ZERO, N * 2, n).mul(h.R.mul(c)) + sel(N * 2, Mp * 2, n).mul(X.block(N * 2, ZERO, Mp * 2, ONE))
        one = {}          # whether or not the solver found a solution
        v = {x: positive_weights(alg.subst(q[x], one), w) for x in PARTS}
        if h.points:
            if mode == 'assembly' and k == 0: t.eq(nm + ': point of the first program', h.points[0], X, where, 'the current CoP, held')
            if decide(h.points[0], X)[0] in ('PROVED', 'AGREE'): X = h.points[0]
        if mode == 'assembly': humanoid_qp(t, h, nm, where, q, v, X, w, flags, ret, one, k)
        else: humanoid_state(t, h, nm, where, X + q['sol'], com, lip, Fb)
        if mode != 'assembly':
            t.eq(nm + ': solve reports what the solver reports', ret, q['found'], where, 'returned value')
            tl = [r for r in h.rec if r[0] == 'updateTimeline']
            t.fact(len(tl) == 1 and tl[0][2].is1(), nm + ': the timeline advances once', where, '%d calls' % len(tl), 'one update of the timeline per solve')
            if tl:
                t.eq(nm + ': the timeline advances by the feedback period', tl[0][1][1], Fb, where, 'period')
                if prev is not None: t.eq(nm + ': CoP and steps carried over', alg.subst(tl[0][1][0], one0), prev, where, 'the solution is added to the sequence it was computed from')
        prev = X + q['sol']; one0 = one
    t.absorb(s.I)

def humanoid_qp(t, h, nm, where, q, v, X, w, flags, ret, one, k):
    N, Mp, n = h.N, h.M, h.n
    t.fact(q['pc'].is1(), nm + ': solver called unconditionally', where, 'called only when %s' % q['pc'], 'one call per solve')
    t.eq(nm + ': solve reports what the solver reports', ret, q['found'], where, 'returned value')
    for x, r, c in (('Q', n, n), ('p', n, ONE), ('xl', n, ONE), ('xu', n, ONE)):
        t.eq('%s: rows of %s' % (nm, x), v[x].r, r, where, 'size'); t.eq('%s: columns of %s' % (nm, x), v[x].c, c, where, 'size')
    t.eq(nm + ': variables the solver is built for', q['nv'], n, where, 'size')
    rawQ = M.zero(n, n); rawp = M.zero(n, 1)
    for wn, c in HOBJ:
        rawQ = rawQ + M.of(matom('sym', ('H.' + c,), n, n, name='H.' + c, sym=True)).scale(w[wn])
        rawp = rawp + alg.ufm('G.' + c, n, 1, X).scale(w[wn])
    f = factor(v['Q'], rawQ); f = ONE if f is None else f
    t.eq(nm + ': Q', v['Q'], rawQ.scale(f), where, 'weighted sum of the Hessians')
    t.eq(nm + ': p', v['p'], rawp.scale(f), where, 'weighted sum of the gradients at the current point, scaled like Q')
    t.fact(sign.positive(f), nm + ': scale of the cost is positive', where, 'Q and p are multiplied by %s' % clip(f), 'the minimiser of a positive multiple is that of the cost')
    if k:
        for x, r in (('Q', rawQ), ('p', rawp)):
            t.eq('%s: %s with tiny weights' % (nm, x), alg.subst(v[x], small(w)), alg.subst(r.scale(f), small(w)), where, 'no weight is neglected')
    for wn in w if k else ():
        z = {next(iter(w[wn].atoms())): ZERO}
        r0 = {x: positive_weights(alg.subst(alg.subst(q[x], one), z), w) for x in 'Qp'}
        f0 = factor(r0['Q'], alg.subst(rawQ, z)); f0 = ONE if f0 is None else f0
        for x, r in (('Q', rawQ), ('p', rawp)):
            t.eq('%s: %s without %s' % (nm, x, wn), r0[x], alg.subst(r, z).scale(f0), where, 'a zero weight switches the objective off')
    mm = {f_: (HROWS[f_][1] if f_ == 'withCopConstraints' or not Mp.is0() else 0) for f_ in flags}
    m = S.of(sum(mm.values())); best = None
    for order in itertools.permutations(flags):
        o = 0; A = M.zero(m, n); b = M.zero(m, 1); 
        for f_ in order:
            c = HROWS[f_][0]; E = sel(S.of(o), S.of(mm[f_]), m)
            A = A + E.mul(alg.ufm('A.' + c, mm[f_], n, n)); b = b + E.mul(alg.ufm('b.' + c, mm[f_], 1, X)); o += mm[f_]
        fa = factor(v['A'], A)
        if best is None: best = (A, b, fa, order)
        if fa is not None and alg.veq(v['A'], A.scale(fa)): best = (A, b, fa, order); break
    A, b, fa, order = best; fa = ONE if fa is None else fa
    t.eq(nm + ': constraints the solver is built for', q['nc'], m, where, 'size')
    for x in ('A', 'bl', 'bu'): t.eq('%s: rows of %s' % (nm, x), v[x].r, m, where, 'size')
    t.eq(nm + ': columns of A', v['A'].c, n, where, 'size')
    if not m.is0():
        t.eq(nm + ': A', v['A'], A.scale(fa), where, 'constraint gradients, one block of rows per enabled constraint')
        t.fact(sign.positive(fa), nm + ': scale of the constraints is positive', where, 'A is multiplied by %s' % clip(fa), 'rows scaled by a positive factor')
        unbounded(t, nm + ': no lower bound on the rows', v['bl'], fa, -1, where)
        for i in range(m.const().numerator):
            capped(t, '%s: upper bound of row %d' % (nm, i), v['bu'].elem(S.of(i), ZERO), -b.elem(S.of(i), ZERO), 1, fa, where)
    for f_, o, c in (('withCopConstraints', ZERO, 'HumanoidCopConstraint'), ('withFeetConstraints', N * 2, 'HumanoidFootConstraint')):
        l = h.bounds(c)
        if l.is0(): continue
        i = sym('i', True, 0); FACTS.push(l - 1 - i)
        for x, nme, sg in (('xl', 'inf.', -1), ('xu', 'sup.', 1)):
            y = v[x].block(o, ZERO, l, ONE)
            if f_ in flags: capped(t, '%s: %s of the %s' % (nm, x, 'CoP' if 'Cop' in f_ else 'steps'), y.elem(i, ZERO), alg.ufm(nme + c, l, 1, X).elem(i, ZERO), sg, ONE, where)
            else: unbounded(t, '%s: %s of the %s' % (nm, x, 'CoP' if 'Cop' in f_ else 'steps'), y, None, sg, where)

def capped(t, nm, got, want, sg, f, where):
    """the bound itself whenever it is of reasonable size"""
    B = S.of(10) ** 11
    c = alg.ite(alg.lt0(want * sg - B), want, B * sg) * f
    if alg.veq(got, c) or alg.veq(got, want * f): t.ok(nm, where, '', 'bound of the constraint at the current point')
    else: t.eq(nm, got, c, where, 'bound of the constraint at the current point')

def humanoid_state(t, h, nm, where, X, com, lip, Fb):
    s = h.s; N, Mp, n = h.N, h.M, h.n; k = h.calls - 1
    last = s.last
    for a, o in (('X', ZERO), ('Y', N)):
        dl = s.call_raw(lip, 'getCop%sLinearDynamic' % a, k); Sm, K, Ui = (s.leaf(dl, x) for x in ('S', 'K', 'Uinv'))
        ax = 0 if a == 'X' else 1
        c = h.R.T.block(o, ZERO, N, N).mul(X.block(ZERO, ZERO, N, ONE)) + h.R.T.block(o, N, N, N).mul(X.block(N, ZERO, N, ONE)) + h.FU.mul(X.block(N * 2 + Mp * ax, ZERO, Mp, ONE)) + h.FSm.scale(h.foot['sup' + a].elem(ZERO, ZERO))
        j = Ui.mul(c - Sm.mul(com[a]) - K).elem(ZERO, ZERO)
        got = alg.subst(s.call(h.g.o, 'getComState' + a), {x: ONE for x in found_atoms(h)})
        for i, want in enumerate((com[a].elem(ZERO, ZERO) + Fb * com[a].elem(ONE, ZERO) + Fb ** 2 / 2 * com[a].elem(S.of(2), ZERO) + Fb ** 3 / 6 * j,
                                  com[a].elem(ONE, ZERO) + Fb * com[a].elem(S.of(2), ZERO) + Fb ** 2 / 2 * j, com[a].elem(S.of(2), ZERO) + Fb * j)):
            t.eq('%s: CoM %s component %d' % (nm, a, i), got.elem(S.of(i), ZERO), alg.subst(want, {x: ONE for x in found_atoms(h)}), where, 'exact integral of the first jerk of the sequence realising the planned CoP')
    s.last = last
    uf = [r for r in h.rec if r[0] == 'updateFeetStates']
    t.fact(len(uf) == 1 and uf[0][2].is1(), nm + ': the feet move once', where, '%d calls' % len(uf), 'one update of the feet per solve')
    if uf:
        t.eq(nm + ': steps given to the feet', uf[0][1][0], X.block(N * 2, ZERO, Mp * 2, ONE), where, 'planned positions of the previewed steps')
        t.eq(nm + ': period given to the feet', uf[0][1][1], Fb, where, 'period')

def periods(P, t, sc):
    """the pendulum integrates over the period of the solve, however it changes from one solve to the next"""
    h = Humanoid(P, sc, (), 1); g, s = h.g, h.s; N = h.N; T = ONE / 10; FACTS.push(ONE * 2 - h.calls)
    s.call(g.o, 'setNbSamples', N); s.call(g.o, 'setSamplingPeriod', T); h.k = N; h.fd()
    w = {k: sym('w_' + k) for k, _ in HOBJ}
    for v in w.values(): FACTS.push(v)
    s.call(g.o, 'setWeightings', struct(s, 'HumanoidWalkgenWeighting', 'w', w))
    s.call(g.o, 'setConfig', struct(s, 'HumanoidWalkgenConfig', 'c', {f: ZERO for f in HFLAGS}))
    lip = g.member_of('LIPModel'); tag = 'HumanoidWalkgen<%s>' % sc; e = s.eps * 3 / 2
    for F in (ONE / 20, ONE / 25, ONE / 20 + e, ONE / 20, T):
        h.rec.clear(); h.points.clear()
        g.run(F); where = s.where(); nm = '%s, solve %d with a period of %s' % (tag, h.g.calls and len(h.g.calls), F)
        t.eq(nm + ': period of the pendulum', s.call(lip, 'getFeedbackPeriod'), F, where, 'the period of the solve')
        ref = s.new('LIPModel', name='ref%d' % len(h.g.calls))
        for n, v in (('setNbSamples', N), ('setSamplingPeriod', T), ('setFeedbackPeriod', F), ('setComHeight', s.call(lip, 'getComHeight'))): s.call(ref, n, v)
        k = ZERO
        for a in 'XY':
            for x in ('S', 'K', 'Uinv'):
                t.eq('%s: CoP %s dynamics %s' % (nm, a, x), s.leaf(s.call_raw(lip, 'getCop%sLinearDynamic' % a, k), x), s.leaf(s.call_raw(ref, 'getCop%sLinearDynamic' % a, k), x), where, 'dynamics of this period')
    t.absorb(s.I)

def found_atoms(h): return []          # whether or not the solver found a solution

# ------------------------------------------------------------------ C13: what a solve does to the state
def integrated(t, nm, where, got, old, j, F):
    p, v, a = (old.elem(S.of(i), ZERO) for i in range(3))
    for i, want in enumerate((p + F * v + F ** 2 / 2 * a + F ** 3 / 6 * j, v + F * a + F ** 2 / 2 * j, a + F * j)):
        t.eq('%s component %d' % (nm, i), got.elem(S.of(i), ZERO), want, where, 'exact integral of the planned jerk over the period')

MOVED = {'ZebulonWalkgen': (('ComStateX', 0), ('ComStateY', 1), ('BaseStateX', 2), ('BaseStateY', 3)), 'TrajectoryWalkgen': (('State', 0),)}
HELD = {'ZebulonWalkgen': ('BaseStateRoll', 'BaseStatePitch', 'BaseStateYaw'), 'TrajectoryWalkgen': ()}
def state(P, t, sc, G, flags):
    N = sym('N', True, 1); nv = G.nvar(N)
    g = Gen(P, sc, G.cls, abstracted(G, N)); s = g.s
    setting(G, g, flags, N)
    X = M.zero(nv, 1); F = sym('F'); FACTS.push(F - ONE / 1000)
    cur = {n: symv(n, 3) for n, _ in MOVED[G.cls]}
    for n, v in cur.items(): s.call(g.o, 'set' + n, v)
    held = {}
    for n in HELD[G.cls]: held[n] = symv(n, 3); s.call(g.o, 'set' + n, held[n])
    tag = '%s<%s> with %s' % (G.cls, sc, '+'.join(f[4:] for f in flags) or 'no constraints')
    one = {}
    for k in range(3):
        if k == 2: s.call(g.o, 'setNbSamples', N); X = M.zero(nv, 1)
        q, ret = g.run(F); where = s.where(); nm = '%s, solve %d%s' % (tag, k + 1, ' after setNbSamples' if k == 2 else '')
        t.eq(nm + ': solve reports what the solver reports', ret, q['found'], where, 'returned value')
        X = X + q['sol']
        for n, k_ in MOVED[G.cls]:
            got = alg.subst(s.call(g.o, 'get' + n), one); s.last = None
            integrated(t, '%s: %s' % (nm, n), where, got, cur[n], X.elem(N * k_, ZERO), F); cur[n] = got
        for n, v in held.items(): t.eq('%s: %s' % (nm, n), s.call(g.member_of('BaseModel'), 'get' + n[4:]), v, where, 'not moved by a solve')
        for n, o in (('getJerk', 0), ('getComJerkX', 0), ('getComJerkY', 1), ('getBaseJerkX', 2), ('getBaseJerkY', 3)):
            if s.fns(g.o, n, 0): t.eq('%s: %s' % (nm, n), alg.subst(s.call(g.o, n), one), X.elem(N * o, ZERO), where, 'first jerk of the plan')
    t.absorb(s.I)
