"""The feet supervisor: walking state machine, what it publishes, feet motion (C16, C17).
The supervisor is driven through its public interface only.  Times are symbolic multiples of a symbolic
feedback period (the pattern of multiples is enumerated), everything spatial is symbolic; the required values
are computed by `Ref`, written from the documentation and not from the code."""
import itertools
from fractions import Fraction as Fr
from .. import alg, interp, ir
from ..alg import S, M, FACTS, ZERO, ONE
from ..interp import Ptr, Loc
from ..scen import Scen, sym, symm, symv, NS, loc_t

FEET = ('Left', 'Right'); OTHER = {'Left': 'Right', 'Right': 'Left'}
DS = 'DS'                                   # phases: DS, or the name of the support foot

class Ref:
    """the walking state machine as documented; time unit: one feedback period"""
    def __init__(self, N, k, step, ds):
        self.N, self.k, self.step, self.ds = N, k, step, ds      # N samples of k units; step and double support lengths in units
        self.cur = DS; self.dur = ds; self.r = ds; self.move = False; self.plan = None; self.landed = False
    def succ(self, p):
        if p == DS: q = 'Left' if self.move else DS
        else: q = OTHER[p] if self.move else DS
        return q, self.ds if q == DS else self.step
    def update(self):
        """a new call: enter the phase previewed if the current one is over, preview the rest"""
        self.landed = False
        if self.r == 0:
            self.landed = self.cur != DS
            self.cur, self.dur = self.plan; self.r = self.dur
        self.plan = self.succ(self.cur)
    @property
    def tau(self): return (self.r - 1) % self.k + 1               # units until the next sample
    def phases(self):
        """(phase, start, end) over the horizon"""
        out = [(self.cur, 0, self.r)]
        while out[-1][2] <= self.tau + (self.N - 1) * self.k:
            q, d = self.succ(out[-1][0]); out.append((q, out[-1][2], out[-1][2] + d))
        return out
    def samples(self):
        """(phase, number of footsteps landed since now) at each sample"""
        out = []; ph = self.phases()
        for i in range(self.N):
            t = self.tau + i * self.k
            j = next(j for j, p in enumerate(ph) if p[1] <= t < p[2])
            out.append((ph[j][0], sum(1 for p in ph[:j] if p[0] != DS)))
        return out
    @property
    def steps(self): return self.samples()[-1][1]
    def stepper(self, j):
        """the support foot from which the j-th previewed step is taken"""
        return [p[0] for p in self.phases() if p[0] != DS][j]
    @property
    def support(self): return 'middle' if self.cur == DS and not self.move else 'Left' if self.cur == DS else self.cur
    def advance(self): self.r -= 1

class Sup:
    """supervisor, reference machine and the symbolic state of both feet"""
    def __init__(self, P, sc, N, k, step, ds, nv=2, height=True):
        s = self.s = Scen(P, sc); self.P = P; I = s.I; self.k = k; self.N = N
        F = self.F = sym('F'); FACTS.push(F - ONE / 1000); FACTS.push(ONE / 10 - ONE / F / 10000); FACTS.push(ONE / F)    # the comparison tolerance is 1/10000
        self.T = F * k
        self.points(s)
        self.o = s.new('HumanoidFeetSupervisor', S.of(N), self.T, name='sup')
        self.ref = Ref(N, k, step, ds)
        s.call(self.o, 'setStepPeriod', F * step); s.call(self.o, 'setInitialDoubleSupportLength', F * ds)
        self.foot = {}; self.pol = {}
        for f in FEET:
            for a in 'XYZ':
                v = self.foot[f, a] = symv('%s%s' % (f, a), 3); s.call(self.o, 'set%sFootState%s' % (f, a), v)
            for n in ('Kinematic', 'Cop'):
                cp = s.blank('ConvexPolygon', 'sym', '%s%s' % (f, n)); loc = s.call_raw(cp, 'getVertices'); m = nv + (f == 'Right')
                s.I.write(s.st, s.I.lenloc(loc), S.of(m))
                pts = [symv('%s%s%d' % (f, n, i), 2) for i in range(m)]
                for i, p in enumerate(pts): s.I.store(s.st, s.I.elemof(loc, S.of(i)), p)
                s.call(self.o, 'set%sFoot%sConvexPolygon' % (f, n), cp); self.pol[f, n] = pts
            s.call(self.o, 'set%sFootMaxHeight' % f, sym('height' + f))
        self.model = s.new('HumanoidFootModel', S.of(N), self.T, name='spare')
    def points(self, s):
        """a polygon built from points is represented by those points (any order)"""
        I = s.I
        def ctor(I, st, loc, a, e, fr):
            src = a[0]
            if isinstance(src, Ptr): src = I.deref(src)
            keep, s.st = s.st, st
            try: dst = s.call_raw(loc, 'getVertices')
            finally: s.st = keep
            I.copy(st, dst, src)
        for f in self.P.fun.values():
            if f.get('cls') == NS + 'ConvexPolygon<%s>' % s.scalar and f.get('ctor') and len(f['params']) == 1 and f['params'][0]['t']['b'] != f['cls']: I.summ[f['id']] = ctor
        def upd(ax):
            def h(I, st, obj, args, e, fr):
                l = self.stateloc(st, obj, ax)
                v = alg.ufm('towards', 3, 1, I.load(st, l), *[I.load(st, x) for x in args])
                I.store(st, l, v)
            return h
        for ax in 'XYZ': I.summ[(NS + 'HumanoidFootModel', 'updateState' + ax)] = upd(ax)
    def stateloc(self, st, obj, ax):
        keep, self.s.st = self.s.st, st
        try: return self.s.call_raw(obj, 'getState' + ax)
        finally: self.s.st = keep
    def towards(self, state, target, remaining, elapsed):
        m = M.zero(3, 1) if target is None else M.E(0, 1, 3).scale(target)
        return alg.ufm('towards', 3, 1, state, m, remaining, elapsed)
    def fork(self):
        import copy
        o = copy.copy(self); o.s = self.s.fork(); o.ref = copy.copy(self.ref); o.foot = dict(self.foot); return o
    def vec(self, name, v):
        l = Loc((name,), (), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': 1, 's': self.s.scalar})
        self.s.I.store(self.s.st, l, v); return l

    # ------------------------------------------------------------------ one call of updateTimeline
    def timeline(self, t, tag, k):
        s, r, N = self.s, self.ref, self.N; o = self.o
        before = getattr(r, 'known', 0)
        xs = [sym('u%d_%d' % (k, i)) for i in range(2 * N)]; px = [sym('px%d_%d' % (k, i)) for i in range(before)]; py = [sym('py%d_%d' % (k, i)) for i in range(before)]
        X = self.vec('X', vec(xs + px + py))
        s.call(o, 'updateTimeline', X, self.F); wh = s.where()
        r.update()
        if r.landed: px, py = px[1:], py[1:]
        Mp = r.steps
        # steps already planned are kept, new ones are put in the middle of the region reachable from the one before
        px, py = px[:Mp], py[:Mp]
        while len(px) < Mp:
            f = r.stepper(len(px)); pts = self.pol[f, 'Kinematic']
            for l, ax, c in ((px, 'X', 0), (py, 'Y', 1)):
                base = l[-1] if l else self.support(ax).elem(ZERO, ZERO)
                l.append(base + middle([p.elem(S.of(c), ZERO) for p in pts]))
        r.known = Mp; self.px, self.py = px, py
        got = s.I.load(s.st, X)
        if isinstance(got, S): got = M.scalar(got)
        if t.fact(alg.eq(got.r, S.of(2 * N + 2 * Mp)), tag + 'size of the decision vector', wh, '%s rows, %d samples, %d steps' % (got.r, N, Mp), 'two rows per sample and per previewed step'):
            for i, v in enumerate(xs + px + py):
                what = 'CoP %d' % i if i < 2 * N else 'step %d %s' % ((i - 2 * N) % max(Mp, 1), 'xy'[(i - 2 * N) // max(Mp, 1)])
                t.eq(tag + 'decision vector: ' + what, got.elem(S.of(i), ZERO), v, wh, rule='planned CoP and steps are kept, a new step lies in the middle of its reachable region')
        self.wh = wh
        self.published(t, tag)
    def support(self, ax):
        w = self.ref.support
        return (self.foot['Left', ax] + self.foot['Right', ax]).scale(ONE / 2) if w == 'middle' else self.foot[w, ax]
    def published(self, t, tag):
        s, r, N, o = self.s, self.ref, self.N, self.o; wh = self.wh; Mp = r.steps; sm = r.samples()
        t.eq(tag + 'number of previewed steps', s.call(o, 'getNbPreviewedSteps'), S.of(Mp), wh, rule='footsteps that land within the horizon')
        V0 = vec([ONE if n == 0 else ZERO for _, n in sm]); V = M.zero(S.of(N), S.of(Mp))
        for i, (_, n) in enumerate(sm):
            if n: V = V + M.E(i, 1, N).mul(M.E(n - 1, 1, Mp).T)
        sel = s.call_raw(o, 'getSelectionMatrices'); lin = s.call_raw(o, 'getFeetPosLinearDynamic')
        for nm, loc, a, want in (('V0', sel, 'V0', V0), ('V', sel, 'V', V), ('VT', sel, 'VT', V.T), ('S', lin, 'S', V0), ('U', lin, 'U', V), ('UT', lin, 'UT', V.T)):
            t.eq(tag + nm, s.leaf(loc, a), want, wh, rule='sample i stands on the footstep that is on the ground at its time')
        W = M.identity(S.of(N)); tau = S.of(Fr(r.tau, r.k)) if False else S.of(r.tau) / r.k
        got = s.call(o, 'getSampleWeightMatrix')
        for i in range(N):
            for j in range(N):
                if i == j == N - 1: continue                    # its value is "only here for esthetic purposes"
                t.eq(tag + 'sample weight %d %d' % (i, j), got.elem(S.of(i), S.of(j)), (tau if i == 0 else ONE) if i == j else ZERO, wh, rule='the first sample is weighted by the part of its period that is left')
        truncated(t, tag + 'feedback calls before the next sample', s.call(o, 'getNbOfCallsBeforeNextSample'), r.tau, s.where())
        R = s.call(o, 'getRotationMatrix'); RT = s.call(o, 'getRotationMatrixT'); I2 = M.identity(S.of(2 * N))
        t.eq(tag + 'transposed rotation', RT, R.T, wh, rule='transpose'); t.eq(tag + 'rotation is orthogonal', R.mul(RT), I2, wh, rule='orthogonal')
        t.eq(tag + 'double support', s.call(o, 'isInDS'), S.of(int(r.cur == DS)), wh, rule='current phase')
        ref = {}                                   # references handed out stay right while others are asked for
        for ax in 'XY':
            ref[ax] = s.call_raw(o, 'getSupportFootState' + ax), s.where()
            t.eq(tag + 'support foot ' + ax, s.I.load(s.st, ref[ax][0]), self.support(ax), s.where(), rule='the foot on the ground (the middle of both when standing)')
        for i, (p, n) in enumerate(sm):
            got = self.vertices(s.call_raw(o, 'getCopConvexPolygon', S.of(i))); w2 = s.where()
            self.polygon(t, tag + 'CoP polygon of sample %d' % i, got, self.cop(p, n), w2)
        for j in range(Mp):
            got = self.vertices(s.call_raw(o, 'getKinematicConvexPolygon', S.of(j)))
            self.polygon(t, tag + 'kinematic polygon of step %d' % j, got, self.pol[r.stepper(j), 'Kinematic'], s.where())
        for ax in 'XY': t.eq(tag + 'support foot %s after the other queries' % ax, s.I.load(s.st, ref[ax][0]), self.support(ax), ref[ax][1], rule='an answer is not changed by another query')
    def vertices(self, cp):
        s = self.s
        if isinstance(cp, Ptr): cp = s.I.deref(cp)
        loc = s.call_raw(cp, 'getVertices'); n = s.I.veclen(s.st, loc).const()
        if n is None: raise ir.AnalysisBroken('number of vertices of a polygon is not determined')
        return [s.I.load(s.st, s.I.elemof(loc, S.of(i))) for i in range(int(n))]
    def cop(self, p, n):
        """vertices of the support polygon of a sample relative to its reference footstep"""
        if p != DS: return self.pol[p, 'Cop']
        pos = {f: vec([self.foot[f, 'X'].elem(ZERO, ZERO), self.foot[f, 'Y'].elem(ZERO, ZERO)]) for f in FEET}
        r = self.ref
        if n:                                     # the double support after the last step
            f = OTHER[r.cur]; pos[f] = vec([self.px[0], self.py[0]]); origin = pos[f]
        else: origin = (pos['Left'] + pos['Right']).scale(ONE / 2) if r.support == 'middle' else pos[r.support]
        return [v + pos[f] - origin for f in FEET for v in self.pol[f, 'Cop']]
    def polygon(self, t, name, got, want, wh):
        """the same set of points, in any order"""
        rule = 'vertices of the polygon of the foot (or feet) on the ground'
        if not t.fact(len(got) == len(want), name + ': number of points', wh, '%d for %d' % (len(got), len(want)), rule): return
        left = list(got); order = []
        for w in want:
            x = next((g for g in left if alg.veq(g, w)), None)
            if x is not None: left.remove(x)
            order.append(x)
        for i, w in enumerate(want):
            x = order[i]
            if x is None: x = left.pop(0)
            t.eq('%s: point %d' % (name, i), x, w, wh, rule=rule)

    # ------------------------------------------------------------------ one call of updateFeetStates
    def feet(self, t, tag, k):
        s, r, N = self.s, self.ref, self.N; o = self.o; Mp = r.steps
        sx = [sym('sx%d_%d' % (k, i)) for i in range(Mp)]; sy = [sym('sy%d_%d' % (k, i)) for i in range(Mp)]
        s.call(o, 'updateFeetStates', self.vec('steps', vec(sx + sy)), self.F); wh = s.where()
        if Mp: self.px, self.py = sx, sy
        new = dict(self.foot)
        fly = r.dur - r.k                          # the first sampling period of a step is a double support
        if r.cur != DS and r.r <= fly:
            f = OTHER[r.cur]; rem = self.F * r.r
            for ax, l in (('X', sx), ('Y', sy)): new[f, ax] = self.towards(self.foot[f, ax], l[0], rem, self.F)
            new[f, 'Z'] = self.towards(self.foot[f, 'Z'], None, rem, self.F) if 2 * r.r <= fly else \
                self.towards(self.foot[f, 'Z'], sym('height' + f), rem - self.F * fly / 2, self.F)
        r.advance()
        for f in FEET:
            for ax in 'XYZ':
                t.eq('%s%s foot %s' % (tag, f.lower(), ax), s.call(o, 'get%sFootState%s' % (f, ax)), new[f, ax], wh,
                     rule='the flying foot moves towards the next planned step (up, then down), the support foot stays')
        self.foot = new

def vec(l):
    n = len(l); m = M.zero(S.of(n), ONE)
    for i, x in enumerate(l):
        if not (isinstance(x, S) and x.is0()): m = m + M.E(i, 1, n).scale(x)
    return m

def middle(l):
    hi = lo = l[0]
    for x in l[1:]:
        hi = alg.ite(alg.lt0(hi - x), x, hi); lo = alg.ite(alg.lt0(x - lo), x, lo)
    return (hi + lo) * (ONE / 2)

def truncated(t, name, got, n, wh):
    """got is the integer n, also when written as the truncation of n + something in [0,1)"""
    c = next(iter(got.t)) if len(got.t) == 1 else ()
    if len(c) == 1 and c[0][1] == 1 and got.t[c] == 1:
        A = alg._by_id[c[0][0]]
        if A.kind == 'uf' and A.args[0] == 'trunc':
            e = A.args[1]
            if alg.ge0(e - n) and alg.ge0(S.of(n + 1) - e - ONE / 1000): t.ok(name, wh, '', 'number of feedback periods'); return
    t.eq(name, got, S.of(n), wh, rule='number of feedback periods')

def possible(N, k, step, ds):
    """the preview reaches the landing of the foot in the air"""
    return step > k and all((r - 1) % k + 1 + (N - 1) * k >= r for r in range(1, step - k + 1)) and all((r - 1) % k + 1 + (N - 1) * k >= r for r in range(1, step - k + 1))

def history(P, t, sc, N, k, step, ds, depth, flips=99, what=('machine', 'feet'), events=(), nv=2):
    """every history of set/reset of the motion up to a depth (and up to a number of changes), and of events"""
    a = Sup(P, sc, N, k, step, ds, nv); lab = 'HumanoidFeetSupervisor<%s> N=%d k=%d step=%d ds=%d ' % (sc, N, k, step, ds)
    a.what = what
    explore(t, a, lab, '', 0, depth, flips, events)
    t.absorb(a.s.I)

class Quiet:
    """obligations of the other property"""
    def eq(self, *a, **k): return True
    def fact(self, c, *a, **k): return bool(c)
    def ok(self, *a, **k): pass
QUIET = Quiet()

def explore(t, a, lab, hist, depth, moves, flips, events):
    if depth == moves: return
    n0 = len(FACTS.l)
    for mv in (True, False):
        f = flips - (bool(hist) and mv != a.ref.move)
        if f < 0: continue
        for ev in (None,) + tuple(events):
            b = a.fork(); h = hist + ('m' if mv else '-')
            if ev is not None:
                if not ev.apply(b): continue
                h = hist + '(%s)' % ev + h[-1]
            b.s.call(b.o, 'setMove', S.of(int(mv))); b.ref.move = mv
            tag = lab + h + ': '
            b.timeline(t if 'machine' in a.what else QUIET, tag, depth); b.feet(t if 'feet' in a.what else QUIET, tag, depth)
            explore(t, b, lab, h, depth + 1, moves, f, () if ev is not None else events)
            FACTS.release(n0)

class Step:
    """a change of the step period applies to the step being taken and to those to come"""
    def __init__(self, d): self.d = d
    def __str__(self): return 'step period %+d' % self.d
    def apply(self, b):
        r = b.ref
        if r.r <= max(0, -self.d) or r.step + self.d <= r.k: return False          # not at the end of a phase
        r.step += self.d; b.s.call(b.o, 'setStepPeriod', b.F * r.step)
        if r.cur != DS: r.r += self.d; r.dur += self.d
        return True
class Double:
    def __init__(self, d): self.d = d
    def __str__(self): return 'double support %+d' % self.d
    def apply(self, b):
        r = b.ref
        if r.r <= max(0, -self.d) or r.ds + self.d <= 0: return False
        r.ds += self.d; b.s.call(b.o, 'setInitialDoubleSupportLength', b.F * r.ds)
        if r.cur == DS: r.r += self.d; r.dur += self.d
        return True
