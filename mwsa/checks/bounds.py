"""No access outside a container, no operation on matrices of different sizes: the obligations that the
interpreter records on the way through the scenarios of the other properties."""
import os
from .. import alg, rint
from ..alg import S, ONE, FACTS
from ..interp import Interp
from ..chk import SEED, TIER
from .feet import Quiet

KINDS = ('index', 'block', 'shape')
WHAT = {'index': 'element inside its container', 'block': 'block inside its matrix', 'shape': 'sizes of the operands agree', 'assert': 'no assertion fails'}

class Run(Quiet):
    def __init__(self, t): self.t = t
    def add(self, *a, **k): pass
    def bad(self, *a, **k): pass
    def absorb(self, I): self.t.absorb(I)
    def count(self, *a): pass

def run(P, t, label, fn, args, kinds=KINDS):
    """the scenario fn, listening to the accesses only"""
    base = Interp.__init__
    def init(I, *a, **k):
        base(I, *a, **k)
        alg.SHAPES.cb = lambda x, y, what: I.stack and I.shape(x, y, what)
    Interp.__init__ = init; err = None
    try: fn(P, Run(t), *args)
    except Exception as e:
        err = e
    finally: Interp.__init__ = base; alg.SHAPES.cb = None
    seen = set()
    for I in Interp.made:
        for o in I.obls:
            if o.kind in kinds: one(t, label, o, seen)
    Interp.made.clear()
    if err is not None: raise err

def one(t, label, o, seen):
    where = '%s:%s %s' % (o.file, o.line, o.fn); name = '%s: %s at %s:%s' % (label, o.kind, os.path.basename(o.file), o.line)
    if o.cond.is1() or o.pc.is0(): st = 'PROVED'
    else:
        k = (o.file, o.line, o.kind, o.cond.key(), o.pc.key())
        if k in seen: return
        seen.add(k); st = decide(o)
    if st == 'PROVED':
        k = (o.file, o.line, o.kind)
        if k in seen: return
        seen.add(k)
    t.add(name, st if isinstance(st, str) else st[0], where, '' if st == 'PROVED' else '%s  (%s)' % (o.text[:400], st if isinstance(st, str) else st[1]), WHAT[o.kind])

def decide(o):
    bad = o.pc * (ONE - o.cond)
    if bad.is0(): return 'PROVED'
    n0 = len(FACTS.l)
    for f in getattr(o, 'facts', ()): FACTS.push(f)
    try:
        c = alg.resimp(o.cond)
        if c.is1() or (alg.resimp(o.pc) * (ONE - c)).is0(): return 'PROVED'
    finally: FACTS.release(n0)
    if o.cond.is0() and o.pc.is1(): return 'VIOLATED', 'on every path'
    if any(a.kind not in ('sym', 'lw', 'lt0', 'eq0') and not a.name.startswith('nrows_') for a in alg.free_atoms(bad)): return 'UNDECIDED', 'over values the abstraction does not determine: ' + ' '.join(sorted({a.kind for a in alg.free_atoms(bad)}))
    mp = {a: S.of(alg.atom('sym', ('any-%s-%d' % (a.name, a.id),), name=a.name, integer=True, lb=0)) for x in (bad,) + tuple(getattr(o, 'facts', ())) for a in alg.free_atoms(x) if a.kind == 'lw'}
    pc, cond, bad = (alg.subst(x, mp) for x in (o.pc, o.cond, bad))
    fs = [alg.subst(f, mp) for f in getattr(o, 'facts', ())]
    fs = related(fs, bad)
    for k in range(24):
        try: e = rint.sample('%s-%d' % (SEED, k), None, (1, 3 + k % 6), fs + [pc - 1, -cond])
        except rint.Undefined : e = None
        if e is not None: return 'VIOLATED', 'when ' + witness(e, bad)
    return 'UNDECIDED', 'no witness found'

def related(fs, x):
    """the facts about the values x depends on"""
    seen = set(alg.free_atoms(x)); rest = list(fs); out = []
    while True:
        hit = [f for f in rest if seen & set(alg.free_atoms(f))]
        if not hit: return out
        out += hit; rest = [f for f in rest if f not in hit]
        for f in hit: seen |= set(alg.free_atoms(f))

def witness(e, x):
    return ', '.join('%s = %s' % (a, e.s(S.of(a))) for a in sorted(alg.free_atoms(x), key=lambda a: a.id) if not a.boolean)[:400]

def indexed(P, t, sc, cls):
    """every public reading by index, after construction and after each setter"""
    from . import model as mo
    from ..scen import Scen, sym, S
    s0 = Scen(P, sc); n0 = len(FACTS.l)
    for w in [None] + [f['n'] for f in mo.setters(s0, s0.blank(cls))]:
        FACTS.release(n0); s = Scen(P, sc); o = s.new(cls)
        if w and 'Period' in w and s.has(o, 'getFeedbackPeriod'): continue       # C04
        for f in mo.setters(s, o):
            if f['n'] == w:
                mo.apply(s, o, f, 'a')
        if s.has(o, 'getNbSamples'): last = s.call(o, 'getNbSamples') - 1
        else: last = None
        for f in sorted(P.fun.values(), key=lambda f: f['id']):
            if f.get('cls') != o.t['b'] or len(f['params']) != 1 or f['params'][0]['t']['b'] != 'int' or f['n'].startswith('set') or f.get('acc') not in (None, 0, 'public') or f.get('ctor'): continue
            n1 = len(FACTS.l); i = sym('index', True, 0)
            if last is not None and f['params'][0].get('n', '').startswith('nbSample'): FACTS.push(last - i)
            try: s.call_raw(o, f['n'], i)
            except Exception as e:
                if os.environ.get('MWSA_DEBUG'): print(cls, f['n'], repr(e))
            FACTS.release(n1)
    t.absorb(s.I)
