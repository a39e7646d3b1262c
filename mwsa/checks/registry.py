"""property id -> check"""
import itertools
from ..chk import Check
from . import dyn, model
from .. import ir
SC = ('double', 'float')
TB = 'Clang front end, engine (mwsa), exact arithmetic in place of floating point'

def C01():
    c = Check('C01', 'closed-form prediction matrices',
        method='Abstract interpretation of the matrix-building functions with sizes kept symbolic: every counted loop is summarised into a closed form, and a generic element (i,j) of each matrix is compared, region by region, with the response of the integrator chain derived from first principles.',
        assumptions=['real arithmetic; S,T > 0', 'std::pow with an integer exponent is repeated multiplication'])
    for sc in SC:
        for n in dyn.CASES: c.task('%s %s' % (n, sc), dyn.dynamics, sc, n)
        c.task('cop ' + sc, dyn.cop, sc); c.task('jerk ' + sc, dyn.jerk, sc)
        for n in list(dyn.CASES) + ['computeCopDynamic', 'computeJerkDynamic']: c.task('%s again %s' % (n, sc), dyn.used, sc, n, ('U', 'S', 'K'))
    c.expect = 60
    return c

def C02():
    c = Check('C02', 'transpose and inverse companions',
        method='Same summaries as C01; UT=U^T, U*Uinv=I and UTinv=Uinv^T are decided on the normal forms (inverseLU by its contract, whose body is a separate obligation).',
        assumptions=['real arithmetic; the response matrices are invertible'])
    for sc in SC:
        for n in list(dyn.CASES) + ['computeCopDynamic', 'computeJerkDynamic']:
            c.task('%s %s' % (n, sc), dyn.companions, sc, n)
            c.task('%s again %s' % (n, sc), dyn.used, sc, n, ('UT', 'Uinv', 'UTinv'))
        c.task('inverseLU ' + sc, dyn.inverse, sc)
    c.expect = 30
    return c

def C03():
    c = Check('C03', 'state update integrates the jerk exactly',
        method='Abstract interpretation of each state-update entry point on a symbolic state; each component of the result is compared with the exact integral.',
        assumptions=['real arithmetic'])
    for sc in SC:
        for e in dyn.UPD + dyn.UPD_OPT: c.task('%s %s %s' % (e[0], e[1], sc), upd_opt, sc, e)
    c.expect = 20
    return c

def upd_opt(P, t, sc, e):
    if e in dyn.UPD_OPT:
        from ..scen import Scen
        s = Scen(P, sc); o = s.blank(e[0])
        if not (s.has(o, e[1]) and s.has(o, e[2]) and s.has(o, e[3])): return
    dyn.update(P, t, sc, e)

LIP_SET = ('setNbSamples', 'setSamplingPeriod', 'setFeedbackPeriod', 'setComHeight', 'setGravity', 'setMass', 'setTotalMass')
BASE_SET = tuple(x for x in LIP_SET if x != 'setFeedbackPeriod')
NODYN_SET = ('setNbSamples', 'setSamplingPeriod')
def C04():
    c = Check('C04', 'model predictions follow the configuration',
        method='Inductive step over configuration histories: an object in the generic consistent configuration (all setters applied to fresh symbols) takes one more setter call; every published prediction is compared with the prediction function applied to the values last set.',
        assumptions=['prediction functions as uninterpreted functions of their arguments (C01, C02)', '0 < feedback period <= sampling period, 0 < mass <= total mass'])
    for sc in SC:
        for cls, ss in (('LIPModel', LIP_SET), ('BaseModel', BASE_SET), ('NoDynamicModel', NODYN_SET)):
            for w in (None, 'all') + ss: c.task('%s %s %s' % (cls, w, sc), model.freshness, sc, cls, w)
    return c

def C05():
    from . import access
    P = ir.load()
    c = Check('C05', 'configuration read-back and isolation',
        method='Every public setter of every model, supervisor and generator is interpreted on a symbolic object and argument; the paired getter must return the argument and every other settable quantity must keep its value term.',
        assumptions=['arguments satisfy the documented preconditions'])
    for sc in SC:
        for cls in access.classes():
            for n in access.all_setters(P, sc, cls): c.task('%s::%s %s' % (cls, n, sc), access.roundtrip, sc, cls, n)
    return c

def C06():
    from . import objective as ob, humanoid as hu
    c = Check('C06', 'gradient and Hessian of one quadratic cost',
        method='getGradient and getHessian of every objective are interpreted on models with symbolic configuration and states changed after construction; gradient(x) - gradient(0) = Hessian x and Hessian = Hessian^T are decided on the normal forms of the block matrices (horizon length symbolic).',
        assumptions=['linear dynamics of the models as uninterpreted matrices (C01, C04)'])
    for sc in SC:
        for cls in ob.WHEELED:
            for ml in (False, True): c.task('%s %s %s' % (cls, ml, sc), ob.wheeled, sc, cls, ml, 'consistency')
        for cls in ob.TRAJ: c.task('%s %s' % (cls, sc), ob.traj, sc, cls, 'consistency')
        for cls in hu.OBJ: c.task('%s %s' % (cls, sc), hu.objective, sc, cls, 'consistency')
    return c

def C07():
    from . import objective as ob
    c = Check('C07', 'wheeled robot and trajectory objectives measure what they are named after',
        method='The gradient and Hessian extracted from each objective are compared with those of the stated quadratic cost written over the predictions the models publish (block normal forms, horizon length symbolic).',
        assumptions=['linear dynamics of the models as uninterpreted matrices (C01, C04)', 'inverseLU is the inverse', 'masses of at least 1/1000, or a massless base'])
    for sc in SC:
        for cls in ob.WHEELED:
            for ml in (False, True): c.task('%s %s %s' % (cls, ml, sc), ob.wheeled, sc, cls, ml, 'spec')
        for cls in ob.TRAJ: c.task('%s %s' % (cls, sc), ob.traj, sc, cls, 'spec')
    return c

def C08():
    from . import humanoid as hu
    c = Check('C08', 'humanoid objectives measure what they are named after',
        method='The gradient and Hessian extracted from each humanoid objective are compared with those of the stated quadratic cost, written over the predictions the pendulum publishes for the current first period and over what the feet supervisor publishes (block normal forms, numbers of samples and steps symbolic).',
        assumptions=['the feet supervisor is represented by its public getters; that its transposes are transposes and its sample weights symmetric is a property of the supervisor', 'linear dynamics as uninterpreted matrices (C01, C04)'])
    for sc in SC:
        for cls in hu.OBJ: c.task('%s %s' % (cls, sc), hu.objective, sc, cls, 'spec')
    return c

def C09():
    from . import constraint as co
    c = Check('C09', 'motion limits and tilt plane',
        method='Gradient, bounds and row count of the motion constraints are interpreted on symbolic models, after construction and after the limits and states changed, and compared with the limit minus the predicted quantity (block normal forms).',
        assumptions=['linear dynamics of the models as uninterpreted matrices (C01, C04)'])
    for sc in SC:
        c.task('base ' + sc, co.base_motion, sc); c.task('point ' + sc, co.point_motion, sc); c.task('tilt ' + sc, co.tilt_plane, sc)
    return c

def C10():
    from . import constraint as co
    from ..chk import TIER
    c = Check('C10', 'support polygon constraints of the wheeled robot',
        method='Gradient and function of the CoP and CoM constraints are interpreted on a polygon of symbolic vertices; for every edge the block of rows is compared with the half plane of that edge applied to the predicted point relative to the base (horizon symbolic, number of vertices enumerated).',
        assumptions=['linear dynamics of the models as uninterpreted matrices (C01, C04)', 'number of vertices enumerated: 3 and 4 (quick), 1 to 8 (thorough)'])
    for sc in SC:
        for which in ('Cop', 'Com'):
            for nv in ((3, 4) if TIER == 'quick' else range(1, 9)):
                c.task('%s %d %s' % (which, nv, sc), co.polygon, sc, which, False, nv)
                if which == 'Cop': c.task('%s massless %d %s' % (which, nv, sc), co.polygon, sc, which, True, nv)
    return c

def C11():
    from . import humanoid as hu
    from ..chk import TIER
    c = Check('C11', 'humanoid CoP and foot placement constraints',
        method='Gradient, function and bounds of the humanoid constraints are interpreted with the polygons of the samples and steps symbolic (any number of half planes each); every polygon block is compared with its half planes applied to the point it constrains.',
        assumptions=['the feet supervisor and the polygons are represented by their public getters', 'numbers of samples and steps enumerated up to 3 (quick) and 5 (thorough)'])
    for sc in SC:
        for n in range(1, 4 if TIER == 'quick' else 6):
            c.task('cop %d %s' % (n, sc), hu.constraint, sc, 'HumanoidCopConstraint', n, n % 3)
            c.task('foot %d %s' % (n, sc), hu.constraint, sc, 'HumanoidFootConstraint', 1 + n % 2, n)
        c.task('foot 0 ' + sc, hu.constraint, sc, 'HumanoidFootConstraint', 2, 0)
    return c

def C12():
    from . import walkgen as wg
    c = Check('C12', 'assembly of the quadratic program',
        method='solve() of each generator is interpreted twice in a row on a generator configured through its setters, with the objectives and constraints as uninterpreted functions of the point they are asked for and the QP solver as its interface contract; what reaches the solver is compared, part by part, with the weighted cost and the enabled constraint rows (horizon, row counts and weights symbolic; every combination of the constraint switches).',
        assumptions=['objectives and constraints are those of C06 to C11', 'the solver keeps Q and A when warm started (qpsolver.h)'])
    for sc in SC:
        for G in (wg.Zebulon, wg.Trajectory):
            for n in range(len(G.flags) + 1):
                for fl in itertools.combinations(G.flags, n): c.task('%s %s %s' % (G.cls, '+'.join(fl), sc), wg.assembly, sc, G, fl)
        for fl in hum_flags():
            for steps in (0, 1):
                for same in (0, 1): c.task('humanoid %s %d %d %s' % ('+'.join(fl), steps, same, sc), wg.humanoid, sc, fl, steps, same, 'assembly')
    return c


def hum_flags():
    from . import walkgen as wg
    return [fl for n in range(len(wg.HFLAGS) + 1) for fl in itertools.combinations(wg.HFLAGS, n)]

def C13():
    from . import walkgen as wg
    c = Check('C13', 'state update',
        method='solve() of each generator is interpreted several times in a row on symbolic states, with the QP solver as its interface contract (any answer, solution or not); the published states are compared with the exact integral over the feedback period of the first jerk of the accumulated plan, the humanoid plan being converted from CoP positions through the pendulum of that period (horizon symbolic).',
        assumptions=['linear dynamics as uninterpreted matrices (C01, C04)', 'the feet supervisor is represented by its public getters', 'humanoid: 0 and 1 previewed steps; feedback period equal to or shorter than the sampling period'])
    for sc in SC:
        for G in (wg.Zebulon, wg.Trajectory):
            for fl in ((), G.flags): c.task('%s %s %s' % (G.cls, '+'.join(fl), sc), wg.state, sc, G, fl)
        for steps in (0, 1):
            for same in (0, 1): c.task('humanoid %d %d %s' % (steps, same, sc), wg.humanoid, sc, ('withCopConstraints',), steps, same, 'state')
        c.task('humanoid periods ' + sc, wg.periods, sc)
    return c

def C14():
    from . import fresh as fr
    c = Check('C14', 'configuration changes take effect',
        method='Each generator is configured through its setters, solved once, reconfigured by one more setter call and solved again (QP solver as its interface contract, warm start included); the second program is compared, part by part, with the one written from objectives and constraints constructed at that moment over the current models. Every program-relevant setter, every argument symbolic.',
        assumptions=['objectives and constraints are those of C06 to C11', 'linear dynamics as uninterpreted matrices (C01, C04)', 'references are set again after a change of horizon', 'wheeled support polygons with 3 vertices; humanoid with 1 and 2 samples, 1 step, 1 and 2 half planes'])
    for sc in SC:
        for C in (fr.TrajConf, fr.ZebConf):
            for n in ('',) + C.order: c.task('%s after %s %s' % (C.G.cls, n, sc), fr.fresh, sc, C, (n,))
        for n in ('',) + fr.Hum.SETTERS: c.task('HumanoidWalkgen after %s %s' % (n, sc), fr.humanoid_fresh, sc, n)
    return c

def C15():
    from . import solver as so
    c = Check('C15', 'QP solver adapter',
        method='The solver made by the factory is interpreted on symbolic programs over histories of solves (warm and cold, with and without a stream, succeeding and failing), qpOASES being replaced by its interface; what reaches qpOASES, the result and the solution are compared with the program and the answer of that call.',
        assumptions=['qpOASES by its documented interface (argument order, row-major matrices, return value)', 'histories of 3 solves (4 in the thorough tier)'])
    from ..chk import TIER
    K = 3 if TIER == 'quick' else 4
    for sc in SC:
        c.task('storage ' + sc, so.storage, sc); c.task('sizes ' + sc, so.consistent, sc)
        for w in itertools.product((so.ZERO, so.ONE), repeat=K):
            for o in (False, True):
                for last in (so.ZERO, so.FAIL): c.task('history %s %s %s' % (w, o, sc), so.sequence, sc, w, (o,) * K, (so.ZERO,) * (K - 1) + (last,))
        c.task('after a failure ' + sc, so.sequence, sc, (so.ONE,) * 3, (False, True, False), (so.FAIL, so.FAIL, so.ZERO))
        for w in itertools.product((so.ZERO, so.ONE), repeat=2): c.task('second solver %s %s' % (w, sc), so.sequence, sc, w, (False, True), (so.ZERO, so.FAIL), True)
    c.expect = 100
    return c

def feet_grid():
    """(samples, feedback periods per sampling period, step and double support lengths in feedback periods, depth, changes of setMove, events)"""
    from .feet import Step, Double
    from ..chk import TIER
    A = 99; q = [(1, 1, 2, 1, 5, A, ()), (2, 1, 2, 2, 5, A, ()), (3, 1, 2, 2, 5, A, ()), (3, 1, 2, 2, 10, 1, ()), (4, 1, 2, 1, 5, A, ()), (4, 1, 3, 2, 5, A, ()),
         (5, 1, 2, 2, 5, A, ()), (5, 1, 2, 3, 5, A, ()), (2, 2, 4, 4, 5, A, ()), (3, 2, 6, 4, 5, A, ()), (4, 2, 5, 3, 5, A, ()), (4, 2, 6, 4, 12, 1, ()), (3, 3, 6, 3, 8, 1, ()),
         (4, 1, 3, 2, 4, A, (Step(1), Step(-1), Double(1), Double(-1))), (3, 2, 6, 4, 6, 1, (Step(2), Step(-1), Double(2), Double(-2)))]
    if TIER == 'quick': return q
    for N in (1, 2, 3, 4, 5, 6):
        for k in (1, 2, 3):
            for st in (2 * k, 3 * k, 2 * k + 1):
                for ds in (k, 2 * k, 3 * k - 1):
                    x = (N, k, st, ds, 6, A, ())
                    if x not in q: q.append(x)
    q += [(4, 1, 2, 2, 14, 2, ()), (4, 2, 6, 4, 16, 1, ()), (6, 1, 2, 2, 12, 2, ()), (5, 1, 3, 2, 6, A, (Step(1), Step(-1), Double(1), Double(-1)))]
    return q

def feet_check(c, what):
    from . import feet as ft
    for g in feet_grid():
        if not ft.possible(*g[:4]): continue
        for sc in SC: c.task('walk %s %s %s' % (g[:6], '/'.join(map(str, g[6])), sc), ft.history, sc, *g[:6], (what,), g[6])
    return c

FEET_ASSUME = ['the hull of the polygon built from points is represented by these points', 'time is counted in feedback periods: enumerated ratios, any length (at least 1 ms)',
               'the preview reaches the landing of the foot in the air', 'periods are not changed at the very end of a phase']
def C16():
    c = Check('C16', 'walking state machine',
        method='The feet supervisor is interpreted through its public interface over histories of setMove (all of them up to a depth, long ones with few changes, with changes of the periods), with symbolic feedback period, foot states, polygons, plan and solver answers; everything it publishes is compared at every call with the documented state machine.',
        assumptions=FEET_ASSUME)
    return feet_check(c, 'machine')

def C17():
    c = Check('C17', 'feet follow the plan',
        method='As C16; the states of both feet after every call are compared with the documented motion: the foot in the air goes to the next planned step by the end of the step, up to its height over the first half of the flight and down to the ground over the second, and nothing else moves (the interpolation enters as a function of state, objective, remaining and elapsed time).',
        assumptions=FEET_ASSUME)
    return feet_check(c, 'feet')

def C18():
    from . import foot as fo
    c = Check('C18', 'foot trajectory',
        method='The interpolated state is summarised as a function of the elapsed time on each third of the motion and differentiated symbolically; it has to be three cubics joined with equal position, velocity and acceleration, from the current state to the objective.',
        assumptions=['exact arithmetic'])
    for sc in SC:
        for ax in 'XYZ': c.task('foot %s %s' % (ax, sc), fo.foot, sc, ax)
        c.task('interpolator ' + sc, fo.interpolator, sc); c.task('again ' + sc, fo.twice, sc); c.task('tools ' + sc, fo.tools, sc)
    c.expect = 200
    return c

def C19():
    from . import polygon as pg
    from ..chk import TIER
    c = Check('C19', 'polygons',
        method='The polygon is built on symbolic vertices for every arrangement of edge directions of a convex polygon (axis-parallel edges included) and its rows and bounds are compared with the half planes of its edges.',
        assumptions=['edges are parallel to an axis or deviate by more than the tolerance (1/1000)', 'exact arithmetic; 3 to 5 (thorough: 6) edges', 'the given points are the corners of the polygon, counterclockwise (their extraction is C20)'])
    for sc in SC:
        c.task('empty ' + sc, pg.empty, sc)
        for n in (3, 4, 5) if TIER == 'quick' else (3, 4, 5, 6):
            sh = list(pg.shapes(n))
            for i in range(0, len(sh), 12): c.task('shapes %d.%d %s' % (n, i, sc), pg.shapes_of, sc, sh[i:i + 12])
    c.expect = 2000
    return c

def C20():
    from . import polygon as pg
    from ..chk import TIER
    c = Check('C20', 'hull of points',
        method='Abstract interpretation over order types: the points are symbolic coordinates, known only by the turn of every triple and by which of two is lower; every comparison of coordinates, angles and lengths in the extraction is decided by the order type. The order types of up to four points are exhausted, with every order of the points; those of five are sampled by order.',
        assumptions=['exact arithmetic: coordinates, angles and lengths differ by more than the tolerance or are equal', 'up to four points exhaustively (float: one order of each type of four in the quick tier), five points in some orders'])
    for sc in SC:
        c.task('angle ' + sc, pg.angle, sc)
        for m, k in ((0, None), (1, None), (2, None), (3, None), (4, None if sc == 'double' or TIER == 'thorough' else 1), (5, 4 if TIER == 'thorough' else int(sc == 'double'))):
            if k == 0: continue
            o = pg.arrangements(m, min(m, 4) + (m == 5), k)
            if m == 5 and TIER == 'quick': o = o[::4]
            for i in range(0, len(o), 60): c.task('points %d.%d %s' % (m, i, sc), pg.hulls_of, sc, o[i:i + 60])
    c.expect = 2000
    return c

def C21():
    from . import bounds
    from ..chk import TIER
    c = Check('C21', 'accesses inside bounds',
        method='Every element access, block and matrix operation met while the scenarios of C01 to C20 are interpreted yields an obligation on the index or the sizes, under the condition of the path and the facts of the scenario; it is decided on the normal form, and an alarm comes with values of the symbols for which it fails.',
        assumptions=['the scenarios of the other properties: arguments satisfy the documented preconditions', 'accesses whose index the abstraction does not determine are reported as undecided'])
    for sc in SC:
        for cls in ('LIPModel', 'BaseModel', 'NoDynamicModel', 'HumanoidFootModel'): c.task('readings %s %s' % (cls, sc), bounds.run, 'readings %s %s' % (cls, sc), bounds.indexed, (sc, cls))
    for f in (C01, C03, C04, C06, C07, C08, C09, C10, C11, C13, C14, C15, C16, C18, C19, C20):
        for name, fn, args, limit in f().tasks:
            if f is C13 and not name.startswith('humanoid'): continue      # abstract constraints: sizes of their own
            c.task('%s %s' % (f.__name__, name), bounds.run, '%s %s' % (f.__name__, name), fn, args, limit=limit)
    return c

def C22():
    from . import initial as it
    c = Check('C22', 'objects as constructed',
        method='Every constructor is interpreted on an object of undetermined content and everything the object publishes is traced back: no undetermined content is left, states are at rest, and the constructors of a class agree.',
        assumptions=['N >= 1, T > 0'])
    for sc in SC:
        for cls in it.CLASSES:
            for n in (0, 1, 2, 3): c.task('%s/%d %s' % (cls, n, sc), it.defined, sc, cls, n)
        for cls in it.CLASSES[:4]:
            for n in (2, 3): c.task('agree %s/%d %s' % (cls, n, sc), it.agree, sc, cls, n)
        for cls in it.RECORDS: c.task('%s %s' % (cls, sc), it.record, sc, cls)
        for cls, fl in it.GENERATORS:
            for w in (False, True):
                for f in ((),) + tuple((x,) for x in fl) + (fl,): c.task('first %s %s %s %s' % (cls, '+'.join(f), w, sc), it.first, sc, cls, f, w)
    c.expect = 100
    return c
