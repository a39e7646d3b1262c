"""Prediction models (C04): after any sequence of configuration calls, the published predictions are those
of the current configuration."""
from ..scen import *
from .. import alg, ir
from ..alg import S, M, FACTS, ZERO, ONE
from .dyn import CJ

EPSF = {'double': None, 'float': None}
PARTS = ('U', 'UT', 'Uinv', 'UTinv', 'S', 'K')

def arg_for(s, f, tag):
    """a fresh symbolic argument for the one parameter of a setter"""
    t = f['params'][0]['t']; n = '%s_%s' % (f['n'], tag)
    if is_eig(t): return symv(n, 3)
    if t['b'] in ('int', 'unsigned int', 'long', 'unsigned long'): return sym(n, True, 1)
    if t['b'] == 'bool': return None
    if interp.is_scalar(t):
        v = sym(n)
        return v
    if t.get('rec'): return Loc((n,), (), {'b': t['b'], 'rec': 1})
    return None

def setters(s, obj):
    c = obj.t['b']
    fs = [f for f in s.P.fun.values() if f.get('cls') == c and f['n'].startswith('set') and len(f['params']) == 1 and f.get('acc', 'public') in ('public', 0, None)]
    return sorted(fs, key=lambda f: f['id'])

def apply(s, obj, f, tag):
    a = arg_for(s, f, tag)
    if a is None: return False
    if isinstance(a, Loc): s.I.init_mode[a.path[0] if isinstance(a.path, tuple) else a.path] = 'sym'
    if isinstance(a, S) and ('Period' in f['n'] or 'Limit' in f['n'] or 'Mass' in f['n']): FACTS.push(a)
    s.last = f
    s.I.call(s.st, f, obj, [a])
    return a

def lip_spec(s, o):
    N, T, Fb = s.call(o, 'getNbSamples'), s.call(o, 'getSamplingPeriod'), s.call(o, 'getFeedbackPeriod')
    g = s.call(o, 'getGravity'); h = s.call(o, 'getComHeight'); m = s.call(o, 'getMass')
    return N, T, Fb, g, h, m

def spec_dyn(s, name, *args):
    d = s.blank('LinearDynamic', 'undef'); d2 = s.new('LinearDynamic')
    last = getattr(s, 'last', None)
    s.static(CJ, name, *[d2 if a is None else a for a in args]); s.last = last
    return d2

def cmp(t, s, nm, got, want, rule):
    for p in PARTS:
        t.eq('%s %s' % (nm, p), s.leaf(got, p), s.leaf(want, p), s.where(), rule)

# getter -> (static function, extra arguments from the configuration)
def lip_cop(axis):
    def f(s, o, Sp, T, N, cfg):
        return spec_dyn(s, 'computeCopDynamic', Sp, T, N, None, cfg['h'], cfg['g'].elem(S.of(axis), ZERO), cfg['g'].elem(S.of(2), ZERO), cfg['m'], cfg['M'])
    return f
def plain(name):
    def f(s, o, Sp, T, N, cfg): return spec_dyn(s, name, Sp, T, N, None)
    return f
def jerkd(s, o, Sp, T, N, cfg): return spec_dyn(s, 'computeJerkDynamic', N, None)

GET = {
  'LIPModel': {'getCopXLinearDynamic': lip_cop(0), 'getCopYLinearDynamic': lip_cop(1), 'getComPosLinearDynamic': plain('computePosDynamic'),
               'getComVelLinearDynamic': plain('computeVelDynamic'), 'getComAccLinearDynamic': plain('computeAccDynamic'), 'getComJerkLinearDynamic': jerkd},
  'BaseModel': {'getCopXLinearDynamic': lip_cop(0), 'getCopYLinearDynamic': lip_cop(1), 'getBasePosLinearDynamic': plain('computePosDynamic'),
                'getBaseVelLinearDynamic': plain('computeVelDynamic'), 'getBaseAccLinearDynamic': plain('computeAccDynamic'), 'getBaseJerkLinearDynamic': jerkd,
                'getBaseTiltAngleLinearDynamic': plain('computeOrder2PosDynamic'), 'getBaseTiltAngularVelLinearDynamic': plain('computeOrder2VelDynamic')},
  'NoDynamicModel': {'getPosLinearDynamic': plain('computePosDynamic'), 'getVelLinearDynamic': plain('computeVelDynamic'),
                     'getAccLinearDynamic': plain('computeAccDynamic'), 'getJerkLinearDynamic': jerkd}}

class Cfg:
    """the configuration as the caller last set it: setter name -> value"""
    def __init__(self, N, T): self.v = {'setNbSamples': N, 'setSamplingPeriod': T, 'setFeedbackPeriod': T}
    def set(self, f, a):
        self.v[f['n']] = a
        if f['n'] == 'setSamplingPeriod': self.v['setFeedbackPeriod'] = a
    def full(self, s, o, cls):
        v = self.v
        r = {'N': v['setNbSamples'], 'T': v['setSamplingPeriod'], 'F': v['setFeedbackPeriod']}
        r['h'] = v.get('setComHeight'); r['g'] = v.get('setGravity'); r['m'] = v.get('setMass'); r['M'] = v.get('setTotalMass')
        return r

def states(s, o):
    """every symbolic state of the history argument: ctor, then each setter from the generic configuration"""

def freshness(P, t, sc, cls, which):
    s = Scen(P, sc, dyn=True)
    N, T = sym('N', True, 1), sym('T'); FACTS.push(T)
    cfg = Cfg(N, T); FACTS.push(kof(s, cfg.v) - 1)
    o = s.new(cls, N, T, ONE, name='model')
    fs = setters(s, o)
    order = ('setSamplingPeriod', 'setNbSamples', 'setFeedbackPeriod', 'setTotalMass', 'setMass', 'setComHeight', 'setGravity')
    if which is None:
        observe(t, s, o, cls, cfg, 'after construction', ctor=True); t.absorb(s.I); return
    # the generic configuration: every setter once
    for n in order:
        for f in fs:
            if f['n'] == n: go(s, o, f, cfg, 'a')
    for f in fs:
        if f['n'] not in order: go(s, o, f, cfg, 'a')
    if which == 'all':
        observe(t, s, o, cls, cfg, 'generic configuration')
    else:
        f = next((f for f in fs if f['n'] == which), None)
        if f is None: raise ir.AnalysisBroken('%s::%s is gone' % (cls, which))
        go(s, o, f, cfg, 'b'); s.last = f
        observe(t, s, o, cls, cfg, 'after ' + which)
    t.absorb(s.I)

def kof(s, v): return alg.uf('trunc', (v['setSamplingPeriod'] + s.eps) / v['setFeedbackPeriod'], integer=True)

def go(s, o, f, cfg, tag):
    a = arg_for(s, f, tag)
    if a is None: return
    if isinstance(a, Loc): s.I.init_mode[a.root if hasattr(a, 'root') else a.path[0]] = 'sym'
    n = f['n']
    if isinstance(a, S):
        if n not in ('setNbSamples', 'setComHeight', 'setTiltContactPointX', 'setTiltContactPointY'): FACTS.push(a)
        v = cfg.v
        if n == 'setFeedbackPeriod': FACTS.push(v['setSamplingPeriod'] - a)
        if n == 'setMass' and 'setTotalMass' in v: FACTS.push(v['setTotalMass'] - a)
        if n == 'setTotalMass' and 'setMass' in v: FACTS.push(a - v['setMass'])
    s.last = f; cfg.set(f, a)
    if n in ('setSamplingPeriod', 'setFeedbackPeriod'): FACTS.push(kof(s, cfg.v) - 1)
    s.I.call(s.st, f, o, [a])

def observe(t, s, o, cls, cfg, when, ctor=False):
    c = cfg.full(s, o, cls); N, T, F = c['N'], c['T'], c['F']
    if ctor:
        c['g'] = s.call(o, 'getGravity') if s.has(o, 'getGravity') else M.zero(3, 1) + M.E(2, 1, 3).scale(S.of(981) / 100)
        c['h'] = s.call(o, 'getComHeight') if s.has(o, 'getComHeight') else ZERO
        c['m'] = s.call(o, 'getMass') if s.has(o, 'getMass') else ONE
        c['M'] = ONE
    f0 = s.last = getattr(s, 'last', None)
    for g, spec in GET[cls].items():
        nm = '%s<%s> %s: %s' % (cls, s.scalar, when, g)
        if cls == 'LIPModel' and g != 'getComJerkLinearDynamic':
            k = kof(s, cfg.v)
            cmp(t, s, nm, s.call_raw(o, g), spec(s, o, k * F, T, N, c), 'prediction of the current configuration')
            i = sym('idx', True, 0)
            n = FACTS.mark(); FACTS.push(k - 1 - i)
            cmp(t, s, nm + '(i)', s.call_raw(o, g, i), spec(s, o, (i + 1) * F, T, N, c), 'prediction of the current configuration')
            FACTS.release(n)
        else:
            cmp(t, s, nm, s.call_raw(o, g), spec(s, o, T, T, N, c), 'prediction of the current configuration')
    s.last = f0
