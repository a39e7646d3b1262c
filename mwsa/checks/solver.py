"""The QP solver adapter: what it hands to qpOASES, what it reports (C15)."""
import itertools
from .. import alg, interp, ir
from ..alg import S, M, atom, ONE, ZERO, FACTS
from ..interp import Ptr, Loc
from ..scen import Scen, sym, symm, symv, NS, loc_t

QP = 'qpOASES::QProblem'
# arguments of the two entry points, as documented by qpOASES (after "H" for init)
INIT = ('Q', 'p', 'A', 'xl', 'xu', 'bl', 'bu'); HOT = ('p', 'xl', 'xu', 'bl', 'bu')
HOTM = INIT                                  # SQProblem-style hot start that also takes the matrices

class Adapter:
    """a solver made by the factory, qpOASES by its interface"""
    def __init__(self, P, sc):
        s = self.s = Scen(P, sc); self.log = []; self.dims = []; self.ret = ZERO; I = s.I; I.deep_solver = True
        def ctor(I, st, loc, a, e, fr): self.dims.append([I.load(st, x) for x in a])
        def run(I, st, obj, a, e, fr):
            name = e['f']['n']; a = list(a)
            vals = [self.val(st, x) for x in a]
            k = len(self.log); z = symv('primal%d' % k, self.nv)
            self.log.append((name, vals, st.pc)); self.z = z
            return self.ret
        def primal(I, st, obj, a, e, fr):
            I.store(st, self.target(st, a[0]), getattr(self, 'z', symv('stale', self.nv))); return ZERO
        quiet = lambda I, st, obj, a, e, fr: ZERO
        for n, h in (('QProblem', ctor), ('init', run), ('hotstart', run), ('getPrimalSolution', primal), ('setPrintLevel', quiet), ('setOptions', quiet), ('reset', quiet)):
            I.summ[(QP, n)] = h; I.summ[QP + '::' + n] = h
        self.nv = sym('nv', True, 1); self.nc = sym('nc', True, 0)
        f = [f for f in P.fun.values() if f['n'] == 'makeQPSolver' and f['ret']['b'] == NS + 'QPSolver<%s>' % sc and len(f['params']) == 2]
        if len(f) != 1: raise ir.AnalysisBroken('makeQPSolver<%s> is gone' % sc)
        self.make = f[0]
        r = I.call(s.st, f[0], None, [self.nv, self.nc])
        self.obj = I.deref(r if isinstance(r, Ptr) else I.load(s.st, r))
    def target(self, st, x):
        I = self.s.I
        if isinstance(x, Ptr): x = I.deref(x)
        return x
    def val(self, st, x):
        I = self.s.I
        if isinstance(x, Ptr):
            if x.alts[0][1] is None: return None
            x = I.deref(x)
        return I.load(st, x)
    def program(self, k):
        s = self.s; nv, nc = self.nv, self.nc
        q = s.blank('QPMatrices', 'sym', 'qp%d' % k)
        vals = {'Q': symm('Q%d' % k, nv, nv), 'A': symm('A%d' % k, nc, nv)}
        for n, d in (('p', nv), ('xl', nv), ('xu', nv), ('bl', nc), ('bu', nc)): vals[n] = symv('%s%d' % (n, k), d)
        for n, v in vals.items(): s.set(q, n, v)
        return q, vals
    def solve(self, k, warm, stream, ret):
        s = self.s; q, vals = self.program(k); self.ret = ret
        out = Loc(('sol%d' % k,), (), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': 1, 's': s.scalar})
        s.I.store(s.st, out, symv('before%d' % k, self.nv))
        it = sym('it%d' % k, True, 1)
        os = Ptr([(ONE, Loc(('os',), (), {'b': 'std::basic_ostream'}))]) if stream else Ptr([(ONE, None)])
        n = len(self.log)
        r = s.call(self.obj, 'solve', q, it, out, warm, os)
        return self.log[n:], r, s.I.load(s.st, out), vals, it, q

def sequence(P, t, sc, warms, streams, rets, other=False):
    a = Adapter(P, sc); s = a.s; nm = 'QPOasesSolver<%s>' % sc
    if other:             # another solver of the same dimensions has been used before
        a.solve(90, ZERO, False, ZERO); a.solve(91, ONE, False, ZERO); a.log.clear(); a.dims.clear(); nm += ' after another solver'
        r = s.I.call(s.st, a.make, None, [a.nv, a.nc]); a.obj = s.I.deref(r if isinstance(r, Ptr) else s.I.load(s.st, r))
    lab = nm + ' ' + '/'.join('%s%s%s' % ('warm' if w is ONE else 'cold', '+os' if o else '', ' failing' if r is FAIL else '') for w, o, r in zip(warms, streams, rets))
    where = '%s:%s %s' % (a.make.get('file'), a.make.get('l'), a.make['id'])
    for n, v in (('getNbVar', a.nv), ('getNbCtr', a.nc)): t.eq(lab + ': ' + n, s.call(a.obj, n), v, s.where(), rule='the solver has the dimensions it was made for')
    if len(a.dims) != 1: raise ir.AnalysisBroken('one qpOASES problem per solver expected, %d found' % len(a.dims))
    for n, got, v in zip(('variables', 'constraints'), a.dims[0], (a.nv, a.nc)): t.eq(lab + ': number of %s of the qpOASES problem' % n, got, v, where, rule='qpOASES problem is dimensioned as asked')
    for k, (w, o, r) in enumerate(zip(warms, streams, rets)):
        calls, res, sol, vals, it, q = a.solve(k, w, o, r); wh = s.where(); l2 = '%s: solve %d' % (lab, k + 1)
        certain = all(x is not FAIL for x in rets[:k])        # the earlier solves succeeded
        if certain:
            live = [c for c in calls if not c[2].is0()]
            if t.fact(len(live) == 1 and live[0][2].is1(), l2 + ': qpOASES is called once', wh, str([(c[0], str(c[2])) for c in calls]), 'exactly one optimisation per solve') is not False and len(live) == 1:
                name, args, pc = live[0]
                hot = w is ONE and k > 0
                if not hot: t.fact(name == 'init', l2 + ': starts from scratch', wh, name, 'a cold start, or the first solve, hands over the matrices')
                want = INIT if name == 'init' else HOT if len([x for x in args if isinstance(x, M)]) == len(HOT) else HOTM
                got = [x for x in args if isinstance(x, M)]
                if t.fact(len(got) == len(want), l2 + ': number of parts', wh, str(len(got)), 'every part of the program is handed over'):
                    for n, x in zip(want, got): t.eq('%s: %s' % (l2, n), x, vals[n], wh, rule='%s in the position of %s' % (n, n))
                its = [x for x in args if isinstance(x, S)]
                if its: t.eq(l2 + ': iterations', its[0], it, wh, rule='the iteration limit of the caller')
        for n in vals: t.eq('%s: %s unchanged' % (l2, n), s.get(q, n), vals[n], wh, rule='the program of the caller is not modified')
        if r is ZERO:
            t.eq(l2 + ': reports success', res, ONE, wh, rule='true when qpOASES succeeds')
        else: t.eq(l2 + ': result', res, alg.eq0(a.ret), wh, rule='true exactly when qpOASES succeeds, with or without a stream')
        if r is FAIL:         # every return code qpOASES knows
            bad = [c for c in range(-1, 160) if not alg.veq(alg.subst(res, {next(iter(FAIL.atoms())): S.of(c)}), ONE if c == 0 else ZERO)]
            if bad: t.eq(l2 + ': result for return code %d' % bad[0], alg.subst(res, {next(iter(FAIL.atoms())): S.of(bad[0])}), ONE if bad[0] == 0 else ZERO, wh, rule='true exactly when qpOASES succeeds')
            else: t.ok(l2 + ': result for every return code', wh, '', 'true exactly when qpOASES succeeds')
        t.eq(l2 + ': solution', sol, a.z, wh, rule='the solution is the primal solution of this optimisation, also when it failed')
    t.absorb(s.I)

FAIL = sym('returnValue', True)
def storage(P, t, sc):
    """qpOASES reads row by row"""
    r = P.rec.get(NS + 'QPMatrices<%s>' % sc)
    if r is None: raise ir.AnalysisBroken('QPMatrices is gone')
    f = {x['n']: x for x in r['fields']}
    if 'A' not in f: raise ir.AnalysisBroken('QPMatrices::A is gone')
    t.fact(bool(f['A'].get('rm')), 'QPMatrices<%s>::A is stored by rows' % sc, '%s:%s' % (r['file'], f['A']['l']), '', 'qpOASES reads the constraint matrix row by row')
    t.fact(f['A']['t'].get('s') == sc, 'QPMatrices<%s>::A has the scalar type' % sc, '', '', '')

def consistent(P, t, sc):
    s = Scen(P, sc); q = s.blank('QPMatrices', 'sym', 'qp'); nv, nc = sym('nv', True, 0), sym('nc', True, 0); want = ONE
    for n, r, c in (('Q', nv, nv), ('A', nc, nv), ('p', nv, None), ('xl', nv, None), ('xu', nv, None), ('bl', nc, None), ('bu', nc, None)):
        a = sym('rows_' + n, True, 0); b = sym('cols_' + n, True, 0) if c is not None else ONE
        s.set(q, n, symm(n, a, b)); want = want * alg.eq0(a - r)
        if c is not None: want = want * alg.eq0(b - c)
    t.eq('QPMatrices<%s>::dimensionsAreConsistent' % sc, s.call(q, 'dimensionsAreConsistent', nv, nc), want, s.where(), rule='true exactly when every part has the announced size')
    t.absorb(s.I)
