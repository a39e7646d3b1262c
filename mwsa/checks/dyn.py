"""Constant-jerk prediction matrices: closed forms, companions, state update (C01, C02, C03)."""
from ..scen import *
from .. import alg
from ..alg import S, M, FACTS, ZERO, ONE
CJ = 'Tools::ConstantJerkDynamic'
HALF = S.of(1) / 2

def pos(t): return [ONE, t, t * t * HALF]          # row of the state-transition matrix for the position
def vel(t): return [ZERO, ONE, t]
def acc(t): return [ZERO, ZERO, ONE]

# response of position/velocity/acceleration at time t to a unit jerk held during [a,b], t >= b >= a
def cube(x): return x * x * x
def jpos(a, b, t): return (cube(t - a) - cube(t - b)) / 6
def jvel(a, b, t): return ((t - a) * (t - a) - (t - b) * (t - b)) * HALF
def jacc(a, b, t): return b - a

class Spec:
    """first-principles response of a sampled integrator chain: the instants are t_i = Sp + i*T, the input
    u_0 is held on [0,Sp] and u_j (j>=1) on [Sp+(j-1)T, Sp+jT]"""
    def __init__(self, Sp, T, chain, order):
        self.Sp, self.T, self.chain, self.order = Sp, T, chain, order
    def row(self, i):
        t = self.Sp + i * self.T
        f = {'pos': pos, 'vel': vel, 'acc': acc}[self.chain]
        if self.order == 3: return f(t)
        return {'pos': [ONE, t], 'vel': [ZERO, ONE]}[self.chain]
    def resp(self, i, j, first):
        t = self.Sp + i * self.T
        a, b = (ZERO, self.Sp) if first else (self.Sp + (j - 1) * self.T, self.Sp + j * self.T)
        r = {3: {'pos': jpos, 'vel': jvel, 'acc': jacc}, 2: {'pos': jvel, 'vel': jacc}}[self.order][self.chain]
        return r(a, b, t)

def run(P, sc, name, *args, dyn=False):
    s = Scen(P, sc, dyn=dyn)
    d = s.new('LinearDynamic', name='dyn')
    s.static(CJ, name, *[d if a is None else a for a in args])
    return s, d

CASES = {   # entry point -> (chain, order)
    'computePosDynamic': ('pos', 3), 'computeVelDynamic': ('vel', 3), 'computeAccDynamic': ('acc', 3),
    'computeOrder2PosDynamic': ('pos', 2), 'computeOrder2VelDynamic': ('vel', 2)}

def setup():
    N = sym('N', True, 1); T = sym('T'); Sp = sym('S')
    FACTS.push(T); FACTS.push(Sp)
    return N, T, Sp

def elems(t, what, got, want_row_col, N, C, where, rule, regions):
    """compare matrix got elementwise on each region (name, facts(i,j), want(i,j))"""
    i = sym('i', True, 0); j = sym('j', True, 0)
    base = [N - i - 1, C - j - 1]
    for rn, facts, want in regions:
        fs = base + facts(i, j)
        n = FACTS.mark()
        for f in fs: FACTS.push(f)
        try: t.eq('%s (%s)' % (what, rn), got.elem(i, j), want(i, j), where, rule)
        finally: FACTS.release(n)

def shape(t, what, m, r, c, where):
    t.eq(what + ' rows', m.r, S.of(r), where, 'shape'); t.eq(what + ' cols', m.c, S.of(c), where, 'shape')

def dynamics(P, t, sc, name):
    chain, order = CASES[name]
    N, T, Sp = setup()
    s, d = run(P, sc, name, Sp, T, N, None)
    w = s.where(); sp = Spec(Sp, T, chain, order); nm = '%s<%s>' % (name, sc)
    U = s.leaf(d, 'U'); Sm = s.leaf(d, 'S'); K = s.leaf(d, 'K')
    shape(t, nm + ' U', U, N, N, w); shape(t, nm + ' S', Sm, N, order, w); shape(t, nm + ' K', K, N, 1, w)
    elems(t, nm + ' U', U, None, N, N, w, 'response to a piecewise constant input', [
        ('first input', lambda i, j: [-j], lambda i, j: sp.resp(i, j, True)),
        ('past input', lambda i, j: [i - j, j - 1], lambda i, j: sp.resp(i, j, False)),
        ('future input', lambda i, j: [j - i - 1], lambda i, j: ZERO)])
    for k in range(order):
        i = sym('i', True, 0); n = FACTS.mark(); FACTS.push(N - i - 1)
        t.eq('%s S column %d' % (nm, k), Sm.elem(i, S.of(k)), sp.row(i)[k], w, 'free response of the state')
        FACTS.release(n)
    t.eq(nm + ' K', K, M.zero(N, 1), w, 'no constant part')
    t.absorb(s.I)

def cop(P, t, sc):
    N, T, Sp = setup()
    h, gx, gz, m, Mt = (sym(x) for x in ('h', 'gx', 'gz', 'm', 'M'))
    FACTS.push(Mt); FACTS.push(Mt - m); FACTS.push(m)
    s, d = run(P, sc, 'computeCopDynamic', Sp, T, N, None, h, gx, gz, m, Mt)
    w = s.where(); nm = 'computeCopDynamic<%s>' % sc
    p = Spec(Sp, T, 'pos', 3); a = Spec(Sp, T, 'acc', 3); q = m / Mt
    U = s.leaf(d, 'U'); Sm = s.leaf(d, 'S'); K = s.leaf(d, 'K')
    shape(t, nm + ' U', U, N, N, w); shape(t, nm + ' S', Sm, N, 3, w); shape(t, nm + ' K', K, N, 1, w)
    z = lambda i, j, f: q * (p.resp(i, j, f) - h / gz * a.resp(i, j, f))
    elems(t, nm + ' U', U, None, N, N, w, 'CoP of the inverted pendulum', [
        ('first input', lambda i, j: [-j], lambda i, j: z(i, j, True)),
        ('past input', lambda i, j: [i - j, j - 1], lambda i, j: z(i, j, False)),
        ('future input', lambda i, j: [j - i - 1], lambda i, j: ZERO)])
    i = sym('i', True, 0); n = FACTS.mark(); FACTS.push(N - i - 1)
    for k in range(3):
        t.eq('%s S column %d' % (nm, k), Sm.elem(i, S.of(k)), q * (p.row(i)[k] - h / gz * a.row(i)[k]), w, 'CoP of the inverted pendulum')
    t.eq(nm + ' K', K.elem(i, ZERO), -q * h * gx / gz, w, 'gravity part of the CoP')
    FACTS.release(n)
    t.absorb(s.I)

def jerk(P, t, sc):
    N, T, Sp = setup()
    s, d = run(P, sc, 'computeJerkDynamic', N, None); w = s.where(); nm = 'computeJerkDynamic<%s>' % sc
    t.eq(nm + ' U', s.leaf(d, 'U'), M.identity(N), w, 'the jerk is the input')
    t.eq(nm + ' S', s.leaf(d, 'S'), M.zero(N, 3), w, 'the jerk does not depend on the state')
    t.eq(nm + ' K', s.leaf(d, 'K'), M.zero(N, 1), w, 'no constant part')
    t.absorb(s.I)

def update(P, t, sc, entry):
    """one integration step of a constant jerk"""
    T = sym('T'); j = sym('jerk'); FACTS.push(T)
    x = [sym('x%d' % i) for i in range(3)]
    v = M.zero(3, 1)
    for i in range(3): v = v + M.E(i, 1, 3).scale(x[i])
    want = [x[0] + x[1] * T + x[2] * T * T / 2 + j * T * T * T / 6, x[1] + x[2] * T + j * T * T / 2, x[2] + j * T]
    s = Scen(P, sc)
    cls, upd, setm, getm = entry
    if cls is None:
        st = Loc(('state',), (), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': 1, 's': sc})
        s.st.mem[st.path] = v
        s.static(CJ, 'updateState', j, T, st)
        got = s.I.load(s.st, st); nm = 'updateState<%s>' % sc
    else:
        o = s.new(cls); s.call(o, setm, v)
        s.call(o, upd, j, T); w = s.where()
        got = s.call(o, getm); nm = '%s<%s>::%s' % (cls, sc, upd)
        s.last = s.fns(o, upd)[0]
    for i in range(3):
        t.eq('%s component %d' % (nm, i), got.elem(S.of(i), ZERO), want[i], s.where(), 'exact integration of a constant jerk')
    t.eq(nm + ' size', got.r, S.of(3), s.where(), 'shape')
    t.absorb(s.I)

UPD = [(None, 'updateState', '', '')] + [('LIPModel', 'updateState' + a, 'setState' + a, 'getState' + a) for a in ('X', 'Y', 'Yaw')]
UPD_OPT = [('BaseModel', 'updateState' + a, 'setState' + a, 'getState' + a) for a in ('X', 'Y', 'Yaw', 'Roll', 'Pitch')] + \
          [('NoDynamicModel', 'updateState', 'setState', 'getState')] + \
          [('LIPModel', 'updateStateZ', 'setStateZ', 'getStateZ')]

def companions(P, t, sc, name):
    N, T, Sp = setup()
    h, gx, gz, m, Mt = (sym(x) for x in ('h', 'gx', 'gz', 'm', 'M'))
    args = {'computeCopDynamic': (Sp, T, N, None, h, gx, gz, m, Mt), 'computeJerkDynamic': (N, None)}.get(name, (Sp, T, N, None))
    if name == 'computeCopDynamic': FACTS.push(Mt); FACTS.push(Mt - m); FACTS.push(m)
    s, d = run(P, sc, name, *args)
    w = s.where(); nm = '%s<%s>' % (name, sc)
    U, UT, Ui, UTi = (s.leaf(d, x) for x in ('U', 'UT', 'Uinv', 'UTinv'))
    t.eq(nm + ' UT', UT, U.T, w, 'UT is the transpose of U')
    if alg.veq(Ui, alg.inverse(U)): t.ok(nm + ' Uinv', w, '', 'Uinv is the inverse of U')
    else: t.eq(nm + ' Uinv', U.mul(Ui), M.identity(N), w, 'Uinv is the inverse of U')
    t.eq(nm + ' UTinv', UTi, Ui.T, w, 'UTinv is the transposed inverse')
    t.absorb(s.I)

def inverse(P, t, sc):
    """inverseLU returns the inverse up to entries smaller than its threshold"""
    s = Scen(P, sc); del s.I.summ['MPCWalkgen::Tools::inverseLU']
    fs = [f for f in P.fun.values() if f['n'] == 'inverseLU' and sc in f['id']] or [f for f in P.fun.values() if f['n'] == 'inverseLU']
    if not fs: raise ir.AnalysisBroken('Tools::inverseLU is gone')
    f = fs[0]; n = sym('n', True, 1); A = symm('A', n, n); eps = sym('eps')
    out = Loc(('out',), (), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': -1})
    s.I.init_mode['out'] = 'undef'; s.last = f
    s.I.call(s.st, f, None, [A, out, eps])
    got = s.I.load(s.st, out); w = s.where()
    inv = alg.inverse(A)
    # with a threshold no entry can be below, the result is the inverse itself
    t.eq('inverseLU<%s> with a zero threshold' % sc, alg.subst(got, {alg.atom('sym', ('eps',)): ZERO}), inv, w, 'out = A^-1')
    t.absorb(s.I)

def used(P, t, sc, name, leaves):
    """what an entry point writes does not depend on what the dynamics held before"""
    N, T, Sp = setup()
    h, gx, gz, m, Mt = (sym(x) for x in ('h', 'gx', 'gz', 'm', 'M'))
    args = {'computeCopDynamic': (Sp, T, N, None, h, gx, gz, m, Mt), 'computeJerkDynamic': (N, None)}.get(name, (Sp, T, N, None))
    if name == 'computeCopDynamic': FACTS.push(Mt); FACTS.push(Mt - m); FACTS.push(m)
    s0, d0 = run(P, sc, name, *args)
    s = Scen(P, sc, dyn=False); d = s.new('LinearDynamic', name='dyn'); order = s0.leaf(d0, 'S').c
    old = {'U': symm('U.old', N, N), 'UT': symm('UT.old', N, N), 'Uinv': symm('Uinv.old', N, N), 'UTinv': symm('UTinv.old', N, N), 'S': symm('S.old', N, order), 'K': symm('K.old', N, 1)}
    f = dict(s.I.fields(d.t['b']))
    for k, v in old.items():
        if k in f: s.I.store(s.st, s.I.member(s.st, d, k, f[k]), v)
    s.static(CJ, name, *[d if a is None else a for a in args]); w = s.where()
    for k in leaves: t.eq('%s<%s> over a used dynamics: %s' % (name, sc, k), s.leaf(d, k), s0.leaf(d0, k), w, 'a function of the arguments only')
    t.absorb(s.I)
