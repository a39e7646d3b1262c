"""Half planes and bounds of a convex polygon (C19)."""
import itertools
from .. import alg, interp, ir, loops, sign
from ..alg import S, M, FACTS, ZERO, ONE
from ..interp import Ptr, Loc
from ..scen import Scen, sym, symm, symv, NS
from .feet import vec

# direction of an edge, in counterclockwise order: signs of its x and y components
DIRS = ((1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1))

def shapes(n):
    """directions of the edges of a convex counterclockwise polygon with n vertices"""
    for c in itertools.combinations_with_replacement(range(8), n):
        if any(c.count(d) > 1 for d in (0, 2, 4, 6)): continue       # an edge is maximal
        xs = {DIRS[d][0] for d in c}; ys = {DIRS[d][1] for d in c}
        if not {1, -1} <= xs or not {1, -1} <= ys: continue
        if n > 2 and len({d for d in c}) == 2 and n == 2: continue
        # the turn from one edge to the next is less than half a turn
        g = [(c[(i + 1) % n] - c[i]) % 8 for i in range(n)]
        if any(x > 4 or (x == 4 and c[i] % 2 == 0) for i, x in enumerate(g)): continue
        yield c

def keep(I, st, x):
    if isinstance(x, Ptr): x = I.deref(x)
    return x

def polygon(P, t, sc, shape):
    n = len(shape); lab = 'ConvexPolygon<%s> edges %s' % (sc, ' '.join('%+d%+d' % DIRS[d] for d in shape))
    s = Scen(P, sc); I = s.I
    eps = ONE / 1000                                  # edges are longer than the tolerance, or exactly parallel to an axis
    x = [sym('x%d' % i) for i in range(n)]; y = [sym('y%d' % i) for i in range(n)]
    for i, d in enumerate(shape):                       # edges parallel to an axis
        j = (i + 1) % n
        if DIRS[d][0] == 0: x[j], x = x[i], [x[i] if v == x[j] else v for v in x]
        if DIRS[d][1] == 0: y[j], y = y[i], [y[i] if v == y[j] else v for v in y]
    for i, d in enumerate(shape):
        j = (i + 1) % n
        for v, k in ((x, 0), (y, 1)):
            if DIRS[d][k]: FACTS.push((v[j] - v[i]) * DIRS[d][k] - eps)
    pts = [vec([x[i], y[i]]) for i in range(n)]
    src = s.blank('ConvexPolygon', 'sym', 'source'); loc = s.call_raw(src, 'getVertices')
    I.write(s.st, I.lenloc(loc), S.of(n))
    for i, p in enumerate(pts): I.store(s.st, I.elemof(loc, S.of(i)), p)
    hull = [f for f in P.fun.values() if f['n'] == 'extractVertices' and f.get('cls') == NS + 'ConvexPolygon<%s>' % sc]
    if len(hull) != 1: raise ir.AnalysisBroken('extractVertices is gone')
    I.summ[hull[0]['id']] = lambda I, st, obj, a, e, fr: keep(I, st, a[0])
    o = s.new('ConvexPolygon', loc, name='polygon')
    inner(t, lab, s, o, shape, x, y)
    t.absorb(I)

def inner(t, lab, s, o, shape, x, y):
    n = len(shape)
    got = s.call(o, 'getNbVertices'); wh = s.where(); t.eq(lab + ': number of vertices', got, S.of(n), wh, rule='the vertices given')
    rows = s.call(o, 'getNbGeneralConstraints')
    A = s.call(o, 'getGeneralConstraintsMatrixCoefsForX'); wa = s.where(); B = s.call(o, 'getGeneralConstraintsMatrixCoefsForY'); C = s.call(o, 'getGeneralConstraintsConstantPart')
    want = []; bound = {'XSup': None, 'XInf': None, 'YSup': None, 'YInf': None}
    for i, d in enumerate(shape):
        j = (i + 1) % n; dx, dy = DIRS[d]
        if dx == 0: bound['XSup' if dy > 0 else 'XInf'] = x[i]
        elif dy == 0: bound['YInf' if dx > 0 else 'YSup'] = y[i]
        else: want.append((i, y[j] - y[i], x[i] - x[j], (x[j] - x[i]) * y[i] - (y[j] - y[i]) * x[i]))
    for b, v in bound.items():
        g = s.call(o, 'get%sBound' % b); w = s.where()
        if v is not None: t.eq('%s: %s bound' % (lab, b), g, v, w, rule='an edge parallel to an axis bounds that side')
        else:
            c = g.const(); t.fact(c is not None and (c >= 10**6 if 'Sup' in b else c <= -10**6), '%s: %s is free' % (lab, b), w, str(g), 'no edge there, no bound')
    if not t.fact(alg.eq(rows, S.of(len(want))), lab + ': number of general constraints', wa, '%s for %d' % (rows, len(want)), 'one per edge that is not parallel to an axis'): return
    for v, nm in ((A, 'x coefficients'), (B, 'y coefficients'), (C, 'constants')):
        if not t.fact(alg.eq(v.r, S.of(len(want))), '%s: number of %s' % (lab, nm), wa, str(v.r), 'one per constraint'): return
    left = list(range(len(want)))
    g = [tuple(v.elem(S.of(k), ZERO) for v in (A, B, C)) for k in range(len(want))]
    def same(r, w):
        """the same half plane: proportional with a positive factor"""
        _, a, b, c = w
        if alg.veq(r[0], a) and alg.veq(r[1], b) and alg.veq(r[2], c): return True
        return alg.veq(r[0] * b, r[1] * a) and alg.veq(r[0] * c, r[2] * a) and (alg.gt0(r[0] * a) or sign.positive(r[0] / a))
    free = list(range(len(g))); pair = {}
    for w in range(len(want)):
        k = next((k for k in free if same(g[k], want[w])), None)
        if k is not None: free.remove(k); pair[w] = k
    for w in range(len(want)):
        k = pair.get(w); nm = '%s: edge %d' % (lab, want[w][0])
        if k is not None: t.ok(nm, wa, '', 'half plane to the left of the edge'); continue
        k = free.pop(0)
        for v, e, q in zip(g[k], want[w][1:], ('x coefficient', 'y coefficient', 'constant')): t.eq('%s: %s' % (nm, q), v, e, wa, rule='half plane to the left of the edge')

def empty(P, t, sc):
    s = Scen(P, sc); o = s.new('ConvexPolygon', name='polygon')
    lab = 'ConvexPolygon<%s> without vertices' % sc
    inner(t, lab, s, o, (), [], [])
    t.absorb(s.I)

# ---------------------------------------------------------------------- the vertices extracted from points
import math
from fractions import Fraction as Fr

def sgn(x): return (x > 0) - (x < 0)
def turn(a, b, c): return sgn((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))

def order_types(m, grid):
    """one representative of every order type of m points: the turn of every triple, and which of any two is lower (further left, on a level)"""
    seen = {}
    for c in itertools.combinations_with_replacement([(x, y) for y in range(grid) for x in range(grid)], m):
        k = tuple(turn(a, b, d) for a, b, d in itertools.combinations(c, 3)) + tuple((sgn(b[1] - a[1]), sgn(b[0] - a[0]) if a[1] == b[1] else None) for a, b in itertools.combinations(c, 2))
        seen.setdefault(k, c)
    return [seen[k] for k in sorted(seen, key=str)]

def corners(pts):
    """the corners of the convex hull, counterclockwise"""
    l = sorted(set(pts))
    if len(l) < 2: return l
    out = []
    for seq in (l, l[::-1]):
        h = []
        for p in seq:
            while len(h) > 1 and turn(h[-2], h[-1], p) <= 0: h.pop()
            h.append(p)
        out += h[:-1]
    return out

def hull(P, t, sc, pts):
    pts = [tuple(map(Fr, p)) for p in pts]
    s = Scen(P, sc); I = s.I; n = len(pts); I.unroll = n + 6
    pos = {}
    for p in pts:
        if p not in pos: pos[p] = (sym('x_%s_%s' % p), sym('y_%s_%s' % p))
    # the order of the coordinates
    for k in (0, 1):
        val = {p[k]: None for p in pos}; ks = sorted(val)
        for p in pos:
            if val[p[k]] is None: val[p[k]] = pos[p][k]
            elif val[p[k]] is not pos[p][k]: pos[p] = (val[p[k]], pos[p][1]) if k == 0 else (pos[p][0], val[p[k]])
        for a, b in itertools.combinations(ks, 2): FACTS.push(val[b] - val[a] - ONE / 100)
    for a, b, c in itertools.combinations(sorted(pos), 3):              # the turn of every triple
        k = turn(a, b, c); (ax, ay), (bx, by), (cx, cy) = pos[a], pos[b], pos[c]
        d = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
        if k: FACTS.push(d * k - ONE / 10000)
        else: FACTS.push(d); FACTS.push(-d)
    rep = {}
    for p, (x, y) in pos.items(): rep[next(iter(x.atoms()))] = S.of(p[0]); rep[next(iter(y.atoms()))] = S.of(p[1])
    v = {p: vec(list(c)) for p, c in pos.items()}; back = {x.key(): p for p, x in v.items()}
    diffs = {(v[a] - v[b]).key(): (a[0] - b[0], a[1] - b[1]) for a in pos for b in pos}
    diffs[vec([ONE, ZERO]).key()] = (Fr(1), Fr(0))
    def vecof(x, st):
        if isinstance(x, Ptr): x = I.deref(x)
        return value(I.load(st, x))
    def value(x):
        d = diffs.get(x.key())
        if d is None:                                                   # not a difference of points: its value for the representative
            d = tuple(alg.subst(x.elem(S.of(i), ZERO), rep).const() for i in (0, 1))
            if None in d: raise ir.AnalysisBroken('a vector that is not computed from the points: %s' % str(x)[:200])
        return d
    def angle(I, st, obj, a, e, fr):
        p, q = vecof(a[0], st), vecof(a[1], st)
        if p == (0, 0) or q == (0, 0): return ZERO
        return S.of(Fr(round(math.atan2(p[0] * q[1] - p[1] * q[0], p[0] * q[0] + p[1] * q[1]) * 10**6), 10**6))
    cl = NS + 'ConvexPolygon<%s>' % sc
    f = {f['n']: f for f in P.fun.values() if f.get('cls') == cl}
    for k in ('extractVertices', 'angleBetweenVecs'):
        if k not in f: raise ir.AnalysisBroken(k + ' is gone')
    I.summ[f['angleBetweenVecs']['id']] = angle
    def norm(m):
        d = value(m)
        return S.of(Fr(round(math.hypot(*d) * 10**6), 10**6))
    def approx(m, o):
        if m.key() in back and o.key() in back: return S.of(int(m.key() == o.key()))
        return S.of(int(value(m) == value(o)))
    I.geom = {'norm': norm, 'squaredNorm': lambda m: norm(m) * norm(m), 'isApprox': approx}
    src = s.blank('ConvexPolygon', 'sym', 'source'); loc = s.call_raw(src, 'getVertices')
    I.write(s.st, I.lenloc(loc), S.of(n))
    for i, p in enumerate(pts): I.store(s.st, I.elemof(loc, S.of(i)), v[p])
    lab = 'extractVertices<%s> of %s' % (sc, ' '.join('(%s,%s)' % p for p in pts))
    try: res = s.static('ConvexPolygon', 'extractVertices', loc, raw=True); wh = s.where()
    except ir.AnalysisBroken:
        if not I.failed: raise
    except loops.Endless as e:
        t.bad(lab + ': ends', f['extractVertices']['file'], str(e), 'convex hull'); t.absorb(I); return
    if I.failed:
        o = I.failed[0]; t.bad(lab + ': number of vertices', '%s:%s %s' % (o.file, o.line, o.fn), 'an assertion fails', 'convex hull'); t.absorb(I); return
    m = I.veclen(s.st, res).const()
    if not t.fact(m is not None, lab + ': number of vertices', wh, 'depends on more than the order type', 'convex hull'): return
    got = [back.get(I.load(s.st, I.elemof(res, S.of(i))).key()) for i in range(int(m))]
    want = corners(pts)
    ok = len(got) == len(want) and (not want or want[0] in got)
    if ok and want: k = got.index(want[0]); ok = got[k:] + got[:k] == want
    t.fact(ok, lab + ': vertices', wh, 'found %s' % ' '.join('?' if p is None else '(%s,%s)' % p for p in got), 'each corner of the hull once, counterclockwise')
    t.absorb(I)

def angle(P, t, sc):
    """the angle from one vector to another, counterclockwise positive"""
    f = [f for f in P.fun.values() if f['n'] == 'angleBetweenVecs' and f.get('cls') == NS + 'ConvexPolygon<%s>' % sc]
    if len(f) != 1: raise ir.AnalysisBroken('angleBetweenVecs is gone')
    v, w = symv('v', 2), symv('w', 2); vx, vy, wx, wy = (m.elem(S.of(i), ZERO) for m in (v, w) for i in (0, 1))
    cross, dot = vx * wy - vy * wx, vx * wx + vy * wy; n0 = len(FACTS.l)
    for sg in (1, -1):
        s = Scen(P, sc); lab = 'angleBetweenVecs<%s> %s' % (sc, 'to the left' if sg > 0 else 'to the right')
        s.I.geom = {k: (lambda *a: ZERO) for k in ('isZero', 'isApprox')}
        FACTS.push(cross * sg - ONE / 1000)
        got = s.static('ConvexPolygon', 'angleBetweenVecs', v, w); wh = s.where()
        norm = alg.sqrt(vx * vx + vy * vy) * alg.sqrt(wx * wx + wy * wy)
        forms = [alg.uf('acos', dot / norm) * sg, alg.uf('atan2', cross, dot)]
        if any(alg.veq(got, x) for x in forms): t.ok(lab, wh, '', 'angle of the two vectors, signed by the side')
        else: t.eq(lab, got, forms[0], wh, rule='angle of the two vectors, signed by the side')
        FACTS.release(n0); t.absorb(s.I)
    for nm, hooks, want in (('equal directions', {'isZero': lambda *a: ZERO, 'isApprox': lambda m, o: S.of(int(alg.veq(m, o)))}, ZERO),):
        s = Scen(P, sc); s.I.geom = hooks
        t.eq('angleBetweenVecs<%s> %s' % (sc, nm), s.static('ConvexPolygon', 'angleBetweenVecs', v, v), want, s.where(), rule='no angle'); t.absorb(s.I)

def shapes_of(P, t, sc, l):
    n0 = len(FACTS.l)
    for x in l:
        polygon(P, t, sc, x); FACTS.release(n0)

def arrangements(m, grid, k=None):
    """the order types of m points with every order of the points, or k orders of each, spread over all"""
    out = []
    for n, c in enumerate(order_types(m, grid)):
        l = list(dict.fromkeys(itertools.permutations(c)))
        if k is not None and k < len(l): l = [l[(n * 7 + i * len(l) // k) % len(l)] for i in range(k)]
        out += l
    return out

def hulls_of(P, t, sc, l):
    n0 = len(FACTS.l)
    for c in l:
        hull(P, t, sc, c); FACTS.release(n0)
