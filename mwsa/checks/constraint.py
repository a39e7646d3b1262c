"""Constraints (C09 motion limits and tilt plane, C10 support polygons of the wheeled robot)."""
from ..scen import *
from .. import alg, ir
from ..alg import S, M, FACTS, ZERO, ONE
from ..chk import decide
from .objective import Pair, point, sel, part, cop_terms

def stack(n, rows):
    """rows: list of (offset, length, value); value is a matrix of that many rows"""
    c = rows[0][2].c; r = M.zero(n, c)
    for o, l, v in rows: r = r + sel(o, l, n).mul(v)
    return r

def limits(t, s, nm, con, n, x, rows, m):
    """rows: (J, free response, limit) of length N each, stacked in order"""
    N = rows[0][0].r
    G = stack(m, [(N * i, N, J) for i, (J, c, l) in enumerate(rows)])
    s.alone(t, nm, con, [(f, (x,), stack(m, [(N * i, N, M.const(N, 1, l * sg) - c - J.mul(x)) for i, (J, c, l) in enumerate(rows)])) for f, sg in (('getFunctionInf', -1), ('getFunctionSup', 1))] + [('getNbConstraints', (), m)])
    g = s.call(con, 'getGradient'); t.eq(nm + ': gradient', g, G, s.where(), 'rows predict the limited quantity')
    k = s.call(con, 'getNbConstraints'); t.eq(nm + ': number of rows', k, m, s.where(), 'size')
    for f, sg in (('getFunctionInf', -1), ('getFunctionSup', 1)):
        want = stack(m, [(N * i, N, M.const(N, 1, l * sg) - c - J.mul(x)) for i, (J, c, l) in enumerate(rows)])
        v = s.call(con, f, x)
        t.eq('%s: %s' % (nm, f), v, want, s.where(), 'limit minus the prediction at x')

def base_motion(P, t, sc):
    p = Pair(P, sc); s = p.s; N = p.N
    con = s.new('BaseMotionConstraint', p.base, name='con'); p.states(); x = symv('x', N * 2)
    lv, la = s.call(p.base, 'getVelocityLimit'), s.call(p.base, 'getAccelerationLimit')
    rows = []
    for dyn, l in (('getBaseVelLinearDynamic', lv), ('getBaseAccLinearDynamic', la)):
        U, Sm, K = p.d(p.base, dyn)
        for a, k in (('X', ZERO), ('Y', N)):
            rows.append((U.mul(sel(k, N, N * 2).T), Sm.mul(p.st(p.base, 'getState' + a)) + K, l))
    limits(t, s, 'BaseMotionConstraint<%s>' % sc, con, N * 2, x, rows, N * 4)
    # limits changed afterwards are the ones that count
    nv, na = sym('newvel'), sym('newacc'); FACTS.push(nv); FACTS.push(na)
    s.call(p.base, 'setVelocityLimit', nv); s.call(p.base, 'setAccelerationLimit', na)
    rows = [(J, c, nv if i < 2 else na) for i, (J, c, l) in enumerate(rows)]
    limits(t, s, 'BaseMotionConstraint<%s> after new limits' % sc, con, N * 2, x, rows, N * 4)
    t.absorb(s.I)

def point_motion(P, t, sc):
    s, mdl, N = point(P, sc)
    con = s.new('MotionConstraint', mdl, name='con'); s.call(mdl, 'setState', symv('st', 3)); x = symv('x', N)
    for tag in ('', ' after new limits'):
        if tag:
            nv, na = sym('newvel'), sym('newacc'); FACTS.push(nv); FACTS.push(na)
            s.call(mdl, 'setVelocityLimit', nv); s.call(mdl, 'setAccelerationLimit', na)
        rows = []
        for dyn, l in (('getVelLinearDynamic', s.call(mdl, 'getVelocityLimit')), ('getAccLinearDynamic', s.call(mdl, 'getAccelerationLimit'))):
            loc = s.call_raw(mdl, dyn); U, Sm, K = (s.leaf(loc, z) for z in 'USK')
            rows.append((U, Sm.mul(s.call(mdl, 'getState')) + K, l))
        limits(t, s, 'MotionConstraint<%s>%s' % (sc, tag), con, N, x, rows, N * 2)
    t.absorb(s.I)

def tilt_plane(P, t, sc):
    p = Pair(P, sc); s = p.s; N = p.N; p.states()
    con = s.new('TiltMotionConstraint', p.lip, p.base, name='con')
    for a in ('X', 'Y'):
        s.call(p.lip, 'setState' + a, symv('newcom' + a, 3)); s.call(p.base, 'setState' + a, symv('newbase' + a, 3))
    x = symv('x', N * 4)
    th = p.st(p.base, 'getStateYaw').elem(ZERO, ZERO); sn, cs = alg.uf('sin', th), alg.uf('cos', th)
    J = []; c = []
    for o, dyn, k in ((p.lip, 'getComVelLinearDynamic', ZERO), (p.base, 'getBaseVelLinearDynamic', N * 2)):
        U, Sm, K = p.d(o, dyn)
        J.append(U.mul(sel(k, N, N * 4).T).scale(sn) - U.mul(sel(k + N, N, N * 4).T).scale(cs))
        c.append((Sm.mul(p.st(o, 'getStateX')) + K).scale(sn) - (Sm.mul(p.st(o, 'getStateY')) + K).scale(cs))
    nm = 'TiltMotionConstraint<%s>' % sc
    G = stack(N * 2, [(ZERO, N, J[0]), (N, N, J[1])])
    s.alone(t, nm, con, [('getFunction', (x,), -G.mul(x) - stack(N * 2, [(ZERO, N, c[0]), (N, N, c[1])])), ('getNbConstraints', (), N * 2)])
    t.eq(nm + ': gradient', s.call(con, 'getGradient'), G, s.where(), 'velocity across the heading')
    t.eq(nm + ': number of rows', s.call(con, 'getNbConstraints'), N * 2, s.where(), 'size')
    t.eq(nm + ': function', s.call(con, 'getFunction', x), -G.mul(x) - stack(N * 2, [(ZERO, N, c[0]), (N, N, c[1])]), s.where(), 'minus the predicted velocity across the heading')
    t.absorb(s.I)

# ------------------------------------------------------------------ support polygons
def polygon_arg(s, nv, name='cp'):
    """a symbolic polygon with nv vertices (nv: number, or None for a symbolic count)"""
    cp = Loc((name,), (), {'b': s.cls('ConvexPolygon'), 'rec': 1}); s.I.init_mode[name] = 'sym'
    pts = s.call_raw(cp, 'getVertices')
    if nv is None: V = s.I.veclen(s.st, pts); FACTS.push(V - 1)
    else: V = S.of(nv); s.I.write(s.st, s.I.lenloc(pts), V)
    def vertex(i):
        l = s.I.elemof(pts, S.of(i)); v = s.I.load(s.st, l)
        return v.elem(ZERO, ZERO), v.elem(ONE, ZERO)
    return cp, V, vertex

def com_terms(p, a, k, kb):
    N = p.N; Uc, Sc, Kc = p.d(p.lip, 'getComPosLinearDynamic'); Ub, Sb, Kb = p.d(p.base, 'getBasePosLinearDynamic')
    return (Uc.mul(sel(k, N, N * 4).T) - Ub.mul(sel(kb, N, N * 4).T),
            Sc.mul(p.st(p.lip, 'getState' + a)) + Kc - Sb.mul(p.st(p.base, 'getState' + a)) - Kb)

def polygon(P, t, sc, which, massless, nv):
    """the point (CoP or CoM relative to the base) at every sample against every edge.  With z the point and
    p1 -> p2 edge i, the row of edge i and sample j is  ey (zx - s p1x) - ex (zy - s p1y) >= 0 ; the rows of a
    support polygon confine the point itself for one orientation of the half planes"""
    p = Pair(P, sc, massless); s = p.s; N = p.N; p.states('0')
    cp, V, vertex = polygon_arg(s, nv)
    s.call(p.base, 'set%sSupportConvexPolygon' % which, cp)
    con = s.new('%sConstraint' % which, p.lip, p.base, name='con'); p.states(); x = symv('x', N * 4)
    nm = '%sConstraint<%s>%s, %d vertices' % (which, sc, ' massless base' if massless else '', nv)
    term = (lambda a, i, k, kb: cop_terms(p, massless, a, i, k, kb)) if which == 'Cop' else (lambda a, i, k, kb: com_terms(p, a, k, kb))
    (Jx, cx), (Jy, cy) = (term(a, i, k, kb) for a, i, k, kb in (('X', 0, ZERO, N * 2), ('Y', 1, N, N * 3)))
    before = s.fork()
    t.eq(nm + ': number of rows', s.call(con, 'getNbConstraints'), V * N, s.where(), 'one row per edge and sample')
    G = s.call(con, 'getGradient'); wg = s.where()
    f = s.call(con, 'getFunction', x); wf = s.where()
    before.alone(t, nm, con, [('getGradient', (), G), ('getFunction', (x,), f)])
    t.eq(nm + ': rows of the gradient', G.r, V * N, wg, 'shape'); t.eq(nm + ': columns of the gradient', G.c, N * 4, wg, 'shape')
    t.eq(nm + ': rows of the function', f.r, V * N, wf, 'shape')
    zx, zy = Jx.mul(x) + cx, Jy.mul(x) + cy
    side = None
    for i in range(nv):
        (ax, ay), (bx, by) = vertex(i), vertex((i + 1) % nv)
        ex, ey = bx - ax, by - ay
        n = Jx.scale(ey) - Jy.scale(ex); off = M.const(N, 1, ey * ax - ex * ay)
        g = G.block(N * i, ZERO, N, N * 4); v = f.block(N * i, ZERO, N, ONE)
        free = zx.scale(ey) - zy.scale(ex)
        # the solver imposes  g dx >= v.  Inside a counterclockwise polygon:  -n dx >= free - off ;
        # mirror image of the polygon:  n dx >= -free - off
        if side is None:
            side = 1 if decide(g, -n)[0] in ('PROVED', 'AGREE') else -1
            if side < 0 and decide(g, n)[0] in ('PROVED', 'AGREE'):
                if decide(v, -free - off)[0] in ('PROVED', 'AGREE'):
                    t.bad('%sConstraint: the rows confine the mirror image of the point, not the point, to the support polygon' % which, wf,
                          'row: n dx >= -(n z) - off with n = (ey, -ex), off = n p1 ; inside means n z <= off', 'half planes of a counterclockwise polygon'); 
        t.eq('%s: direction of edge %d' % (nm, i), g, n.scale(-side), wg, 'normal of the edge applied to the predicted point')
        t.eq('%s: bound of edge %d' % (nm, i), v, free.scale(side) - off, wf, 'line of the edge at the predicted point')
    t.absorb(s.I)
