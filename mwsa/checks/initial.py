"""Objects as constructed (C22): everything they publish is determined, at rest, and the same whichever
constructor made them."""
import os
from ..scen import *
from .. import alg, ir, interp
from ..alg import S, M, FACTS, ZERO, ONE
from ..interp import Unsupported, is_scalar
from ..chk import decide

CLASSES = ('LIPModel', 'BaseModel', 'NoDynamicModel', 'HumanoidFootModel', 'HumanoidFeetSupervisor', 'ConvexPolygon',
           'HumanoidWalkgen', 'ZebulonWalkgen', 'TrajectoryWalkgen')
RECORDS = ('HumanoidWalkgenWeighting', 'HumanoidWalkgenConfig', 'ZebulonWalkgenWeighting', 'ZebulonWalkgenConfig',
           'TrajectoryWalkgenWeighting', 'TrajectoryWalkgenConfig', 'LinearDynamic', 'QPMatrices')
GENERATORS = (('TrajectoryWalkgen', ('withMotionConstraints',)),
              ('ZebulonWalkgen', ('withCopConstraints', 'withBaseMotionConstraints', 'withComConstraints', 'withTiltMotionConstraints')),
              ('HumanoidWalkgen', ('withCopConstraints', 'withFeetConstraints')))

def observers(P, c):
    """public const functions without arguments"""
    return sorted((f for f in P.fun.values() if f.get('cls') == c and not f['params'] and f.get('const') and not f.get('ctor') and not f.get('static')
                   and f.get('acc') in (None, 0, 'public')), key=lambda f: f['id'])

def leaves(s, x, name, out, depth=0):
    """the scalar and matrix values reachable from what an observer returned"""
    I = s.I
    if isinstance(x, interp.Ptr): x = I.deref(x)
    if isinstance(x, (S, M)): out.append((name, x)); return
    if isinstance(x, interp.Multi):
        out.append((name, None)); return
    if not isinstance(x, interp.LV): return
    t = x.t
    if interp.is_eig(t) or is_scalar(t): out.append((name, I.load(s.st, x))); return
    if interp.is_vec(t):
        n = I.veclen(s.st, x); out.append((name + '.size()', n)); k = n.const()
        et = t['a'][0]
        if k is not None:
            for i in range(int(k)): leaves(s, I.elemof(x, i), '%s[%d]' % (name, i), out, depth + 1)
        else: leaves(s, I.elemof(x, sym('any', True, 0)), '%s[any]' % name, out, depth + 1)
        return
    for n, ft in I.fields(t['b']) or []:
        if depth < 4: leaves(s, I.member(s.st, x, n, ft), '%s.%s' % (name, n), out, depth + 1)

def published(s, o):
    """(observer, part, value) of everything an object publishes"""
    r = []
    for f in observers(s.P, o.t['b']):
        n0 = len(FACTS.l); out = []
        x = s.call_raw(o, f['n'])
        leaves(s, x, f['n'] + '()', out)
        FACTS.release(n0)
        r += [(f, n, v) for n, v in out]
    return r

def undefs(v):
    """what memory held before, as far as the value depends on it"""
    u = {a for a in deep(v) if a.kind == 'undef'}
    if not u: return []
    mp = {a: (M.of(matom('undef', ('other', a.id), a.r, a.c, name=a.name + "'")) if isinstance(a, alg.MAtom) else
              S.of(atom('undef', ('other', a.id), name=a.name + "'", boolean=a.boolean, integer=a.integer, lb=a.lb))) for a in u}
    w = alg.subst(v, mp)
    if {a for a in deep(w)} & u: return sorted(a.name for a in u)
    return [] if decide(v, w)[0] != 'VIOLATED' else sorted(a.name for a in u)

def deep(v):
    """every atom and matrix atom inside a value"""
    seen = set(); todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (list, tuple)): todo += list(x); continue
        if isinstance(x, (S, M)):
            if id(x) in seen: continue
            seen.add(id(x))
            if isinstance(x, M):
                todo += [x.r, x.c]
                for (b, m), c in x.t.items():
                    todo.append(c); todo += list(b)
                    for f, _ in m: todo.append(alg._mby_id[f])
            else: todo += list(x.atoms())
            continue
        if isinstance(x, (alg.Atom, alg.MAtom)):
            if x in seen: continue
            seen.add(x); yield x
            todo += [a for a in x.args]

def defined(P, t, sc, cls, n):
    """no published value of an object made by the constructor with n parameters is left to memory"""
    s = Scen(P, sc); o = make(s, cls, n)
    if o is None: return
    for f, name, v in published(s, o):
        if v is None: t.add('%s/%d %s' % (cls, n, name), 'UNDECIDED', detail='alternatives'); continue
        u = undefs(v)
        t.fact(not u, '%s/%d %s is initialised' % (cls, n, name), '%s:%s %s' % (f['file'], f['l'], f['id']), 'depends on %s: %s' % (', '.join(u), v), 'everything published has been given a value')
        if 'State' in f['n'] or cls.endswith('Walkgen') and f['n'] == 'getJerk':
            want = M.zero(S.of(3), ONE) if isinstance(v, M) else ZERO
            if f['n'] in ('getStateZ', 'getComStateZ') and cls in ('LIPModel', 'HumanoidWalkgen'): want = M.E(ZERO, ONE, S.of(3)).scale(s.call(o, 'getComHeight') if s.has(o, 'getComHeight') else ONE)
            if isinstance(v, M): t.eq('%s/%d %s at rest' % (cls, n, name), v, want, '%s:%s %s' % (f['file'], f['l'], f['id']), 'an object starts at rest at the origin')
    t.absorb(s.I)

def make(s, cls, n):
    c = s.cls(cls)
    fs = [f for f in s.P.fun.values() if f.get('cls') == c and f.get('ctor') and len(f['params']) == n and not s.copyctor(f, c)]
    if not fs: return None
    args = []
    for p in fs[0]['params']:
        b = p['t']['b']
        if b == 'int': args.append(sym('N', True, 1))
        elif b == 'bool': args.append(ONE)
        elif is_scalar(p['t']): T = sym('T'); FACTS.push(T); args.append(T)
        else: return None
    return s.new(cls, *args, name='obj')

def agree(P, t, sc, cls, n):
    """the constructor with parameters is the default one followed by the setters"""
    s = Scen(P, sc); a = make(s, cls, n)
    if a is None: return
    r = Scen(P, sc); b = r.new(cls, name='obj')
    r.call(b, 'setNbSamples', sym('N', True, 1)); r.call(b, 'setSamplingPeriod', sym('T'))
    A = {n: (f, v) for f, n, v in published(s, a)}; B = {n: v for f, n, v in published(r, b)}
    for n, (f, v) in sorted(A.items()):
        if v is None or n not in B or B[n] is None: continue
        if 'LinearDynamic' in n or 'Dynamic' in f['n']: continue
        t.eq('%s constructors agree on %s' % (cls, n), v, B[n], '%s:%s %s' % (f['file'], f['l'], f['id']), 'constructing with values is constructing and setting them')
    t.absorb(s.I)

def record(P, t, sc, cls):
    s = Scen(P, sc)
    c = [x for x in (cls, NS + cls, cls + '<%s>' % sc, NS + cls + '<%s>' % sc) if x in P.rec]
    if not c: raise ir.AnalysisBroken('%s is gone' % cls)
    o = s.new(c[0]); out = []
    leaves(s, o, cls, out)
    f = next((f for f in P.fun.values() if f.get('cls') == c[0] and f.get('ctor') and not f['params']), {})
    for name, v in out:
        if v is None: continue
        u = undefs(v)
        t.fact(not u, '%s is initialised' % name, '%s:%s' % (f.get('file'), f.get('l')), 'depends on %s' % ', '.join(u), 'everything published has been given a value')
    t.absorb(s.I)

def first(P, t, sc, cls, flags, weights):
    """the first program of a generator on which nothing but weights and switches has been set"""
    from . import walkgen as wg
    g = wg.Gen(P, sc, cls); s = g.s
    for c, on, setter, pick in ((cls + 'Weighting', weights, 'setWeightings', None), (cls + 'Config', flags, 'setConfig', flags)):
        if not on: continue
        o = s.new(cstruct(s, c), name=c); ns = [n for n, ft in s.I.fields(o.t['b'])]
        for n in ns:
            if pick is None: w = sym('w_' + n); FACTS.push(w); s.set(o, n, w)
            else: s.set(o, n, ONE if n in flags else ZERO)
        s.call(g.o, setter, o)
    F = sym('F'); FACTS.push(F); FACTS.push(ONE - F)
    lab = '%s first program%s%s' % (cls, ' weighted' if weights else '', ''.join(' ' + f for f in flags))
    q, r = g.run(F)
    for p in wg.PARTS:
        u = undefs(q[p])
        t.fact(not u, '%s: %s is determined' % (lab, p), s.where(), 'depends on %s' % ', '.join(u), 'nothing is computed from what memory held before')
    for f, n, v in published(s, g.o):
        if v is None: continue
        u = undefs(v)
        t.fact(not u, '%s: %s is determined' % (lab, n), '%s:%s %s' % (f['file'], f['l'], f['id']), 'depends on %s' % ', '.join(u), 'nothing is computed from what memory held before')
    t.absorb(s.I)

def cstruct(s, cls):
    for x in (cls + '<%s>' % s.scalar, NS + cls + '<%s>' % s.scalar):
        if x in s.P.rec: return x
    raise ir.AnalysisBroken('%s is gone' % cls)
