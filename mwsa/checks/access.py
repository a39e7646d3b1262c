"""Configuration read-back and isolation (C05): a value that was set is the value that is reported and used,
and setting one thing changes nothing else that can be read back."""
from ..scen import *
from .. import alg, ir, interp
from ..alg import S, M, FACTS, ZERO, ONE

VEC3 = ('State',)
def is_state(n): return 'State' in n

def values(s, x):
    """comparable leaves of a returned value: {path: term}"""
    if isinstance(x, Ptr): x = s.I.deref(x)
    if isinstance(x, (S, M)): return {'': x}
    if isinstance(x, Multi):
        t = x.alts[0][1].t
        r = {}
        for p, lt, d in s.I.leaves(t):
            vs = [(g, s.I.leafval(s.st, y, p, lt, d, 0)) for g, y in x.alts]
            v = vs[-1][1]
            for g, w in reversed(vs[:-1]): v = interp.vite(g, w, v)
            r['.'.join(p)] = v
        return r
    if isinstance(x, Loc):
        r = {}
        for p, lt, d in s.I.leaves(x.t):
            v = s.I.leafval(s.st, x, p, lt, d, 0)
            if isinstance(v, (S, M)): r['.'.join(p)] = v
        return r
    return {}

def pub(f): return f.get('acc', 'public') in ('public', None)

def getters(s, o, names=None):
    c = o.t['b']
    r = {}
    for f in sorted(s.P.fun.values(), key=lambda f: f['id']):
        if f.get('cls') == c and f['n'].startswith('get') and not f['params'] and pub(f) and not f.get('static'):
            if names is None or f['n'] in names: r[f['n']] = f
    return r

def read(s, o, n):
    last = getattr(s, 'last', None)
    v = values(s, s.call(o, n, raw=True)) if True else None
    s.last = last
    return v

def mkarg(s, f, tag=''):
    t = f['params'][0]['t']; n = f['n'][3:] + tag
    if is_eig(t): return symv('v_' + n, 3)
    if t['b'] in ('int', 'unsigned int', 'long'): return sym('n_' + n, True, 1)
    if t['b'] == 'bool': return S.of(alg.atom('sym', ('b_' + n,), name='b_' + n, boolean=True, integer=True, lb=0))
    if interp.is_scalar(t): return sym('x_' + n)
    if 'ConvexPolygon' in t['b']:
        a = Loc(('arg_' + n,), (), {'b': t['b'], 'rec': 1}); s.I.init_mode[a.path[0]] = 'sym'; return a
    return None

# what a setter is documented to change besides its own read-back
MOVES = {
  'LIPModel': {'setSamplingPeriod': {'getFeedbackPeriod'}, 'setComHeight': {'getStateZ'}},
}
# pairs whose names differ
HEAD = {('HumanoidWalkgen', 'setComStateZ')}      # the pendulum has a constant height: only the height is kept

def classes():
    return ('LIPModel', 'BaseModel', 'NoDynamicModel', 'HumanoidFootModel', 'HumanoidFeetSupervisor', 'HumanoidWalkgen', 'ZebulonWalkgen', 'TrajectoryWalkgen')

def facts_for(s, o, f, a):
    n = f['n']
    if not isinstance(a, S): return
    t = f['params'][0]['t']
    if t['b'] == 'bool': return
    if any(k in n for k in ('Period', 'Limit', 'Length', 'Mass', 'Height', 'Bound')): FACTS.push(a)
    if n == 'setFeedbackPeriod': 
        FACTS.push(s.call(o, 'getSamplingPeriod') - a)
        FACTS.push(alg.uf('trunc', (s.call(o, 'getSamplingPeriod') + s.eps) / a, integer=True) - 1)

def roundtrip(P, t, sc, cls, name):
    s = Scen(P, sc, dyn=True)
    if cls in ('LIPModel', 'BaseModel', 'NoDynamicModel'):
        N, T = sym('N', True, 1), sym('T'); FACTS.push(T)
        FACTS.push(alg.uf('trunc', (T + s.eps) / T, integer=True) - 1)
        o = s.new(cls, N, T, ZERO, name='obj')
    elif cls in ('HumanoidFootModel',):
        N, T = sym('N', True, 1), sym('T'); FACTS.push(T)
        o = s.new(cls, N, T, name='obj')
    elif cls == 'HumanoidFeetSupervisor':
        N, T = sym('N', True, 1), sym('T'); FACTS.push(T)
        o = s.new(cls, N, T, name='obj')
    else:
        o = s.new(cls, name='obj')
    c = o.t['b']
    fs = sorted([f for f in P.fun.values() if f.get('cls') == c and f['n'] == name and len(f['params']) == 1], key=lambda f: f['id'])
    if not fs: raise ir.AnalysisBroken('%s::%s is gone' % (cls, name))
    f = fs[0]
    gs = getters(s, o)
    own = 'get' + name[3:]
    # generic state of everything that can be set without recomputation: its own symbol
    keep = {}
    for g in gs:
        if g == own or g in MOVES.get(cls, {}).get(name, ()): continue
        ft = gs[g]['ret']
        if not (is_eig(ft) or interp.is_scalar(ft) or 'ConvexPolygon' in ft['b']): continue
        sf = [x for x in P.fun.values() if x.get('cls') == c and x['n'] == 'set' + g[3:] and len(x['params']) == 1]
        if is_state(g) and sf:
            s.I.call(s.st, sf[0], o, [mkarg(s, sf[0], '_0')])
        if not sf: continue     # derived quantity
        keep[g] = None
    for g in keep: keep[g] = read(s, o, g)
    a = mkarg(s, f)
    if a is None: return
    facts_for(s, o, f, a)
    s.last = f
    want = values(s, a)
    s.I.call(s.st, f, o, [a]); s.last = f
    nm = '%s<%s>::%s' % (cls, sc, name)
    if own in gs:
        got = read(s, o, own)
        for p, w in want.items():
            if p not in got: continue
            if (cls, name) in HEAD and isinstance(w, M):
                t.eq('%s read back (first component)' % nm, got[p].elem(ZERO, ZERO), w.elem(ZERO, ZERO), s.where(), 'a stored value is returned as set'); continue
            t.eq('%s read back%s' % (nm, ' ' + p if p else ''), got[p], w, s.where(), 'a stored value is returned as set')
    for g, old in keep.items():
        new = read(s, o, g)
        for p, w in old.items():
            t.eq('%s leaves %s alone%s' % (nm, g[3:], ' ' + p if p else ''), new[p], w, s.where(), 'a setter changes nothing else')
    t.absorb(s.I)

def all_setters(P, sc, cls):
    c = NS + cls + '<%s>' % sc
    return sorted({f['n'] for f in P.fun.values() if f.get('cls') == c and f['n'].startswith('set') and len(f['params']) == 1 and pub(f)
                   and (is_eig(f['params'][0]['t']) or interp.is_scalar(f['params'][0]['t']) or 'ConvexPolygon' in f['params'][0]['t']['b'])})
