"""API-level scenarios: objects of the library are built and driven through their public interface on
symbolic arguments; the engine summarises what each call does to the abstract heap."""
import itertools
from . import alg, interp, summ, ir
from .alg import S, M, atom, matom, ONE, ZERO, FACTS
from .interp import Interp, State, Loc, Ptr, LV, Multi, strip_ref, is_eig, is_vec, Unsupported

NS = 'MPCWalkgen::'

def sym(name, integer=False, lb=None): return S.of(atom('sym', (name,), name=name, integer=integer, lb=lb))
def symm(name, r, c): return M.of(matom('sym', (name,), S.of(r), S.of(c), name=name))
def symv(name, n): return symm(name, n, 1)

class Scen:
    def __init__(self, P, scalar='double', dyn=True, mode='undef'):
        self.P = P; self.scalar = scalar
        self.I = Interp(P, scalar); summ.install(self.I, dyn)
        self.st = State(); self.n = itertools.count()
        self.I.init_mode['G'] = 'sym'; self.I.init_mode['ext'] = 'sym'
    def cls(self, c):
        c = c if '::' in c or c == 'QPOasesSolver' else NS + c
        full = c + '<%s>' % self.scalar
        if full in self.P.rec: return full
        if c in self.P.rec: return c
        raise ir.AnalysisBroken('class %s is gone' % c)
    def fork(self):
        o = object.__new__(Scen); o.__dict__.update(self.__dict__)
        o.st = State(dict(self.st.mem)); return o
    def alone(self, t, nm, obj, calls):
        """each getter asked on its own, on the object as it is now: what it returns does not rest on another
        getter having been asked before; calls: (getter, arguments, value in the usual order)"""
        for m, args, v in calls:
            f = self.fork(); got = f.call(obj, m, *args)
            t.eq('%s: %s asked first' % (nm, m), got, v, f.where(), 'the same in any order of asking')
    # -------------------------------------------------------------- objects
    def blank(self, cls, mode='sym', name=None):
        c = self.cls(cls); root = (name or 'o%d' % next(self.n),)
        self.I.init_mode[root[0]] = mode
        return Loc(root, (), {'b': c, 'rec': 1})
    def new(self, cls, *args, name=None):
        o = self.blank(cls, 'undef', name)
        c = o.t['b']
        fs = [f for f in self.P.fun.values() if f.get('cls') == c and f.get('ctor') and len(f['params']) == len(args)
              and not self.copyctor(f, c)]
        if not fs and not args:
            self.I.default_fields(self.st, o, None); return o
        if not fs: raise ir.AnalysisBroken('constructor of %s with %d parameters is gone' % (c, len(args)))
        f = self.pick(fs, args)
        self.I.default_fields(self.st, o, f)
        self.I.call(self.st, f, o, list(args)); return o
    @staticmethod
    def copyctor(f, c): return len(f['params']) == 1 and f['params'][0]['t']['b'] == c
    def pick(self, fs, args):
        if len(fs) == 1: return fs[0]
        def score(f):
            s = 0
            for p, a in zip(f['params'], args):
                t = p['t']
                if isinstance(a, Loc) and a.t['b'] == t['b']: s += 2
                elif isinstance(a, M) and is_eig(t): s += 2
                elif isinstance(a, S) and interp.is_scalar(t): s += 2
                elif isinstance(a, M) != is_eig(t): s -= 5
            return s
        return max(sorted(fs, key=lambda f: f['id']), key=score)
    # -------------------------------------------------------------- calls
    def has(self, obj, name): return bool(self.fns(obj, name))
    def fns(self, obj, name, n=None):
        c = obj.t['b']; seen = set(); r = []
        todo = [c]
        while todo:
            k = todo.pop(0)
            if k in seen: continue
            seen.add(k)
            fs = [f for f in self.P.fun.values() if f.get('cls') == k and f['n'] == name and (n is None or len(f['params']) == n)]
            if fs: return fs
            rec = self.P.rec.get(k)
            if rec: todo += [b['b'] for b in rec['bases']]
        return r
    def call(self, obj, name, *args, raw=False):
        fs = self.fns(obj, name, len(args))
        if not fs: raise ir.AnalysisBroken('%s::%s/%d is gone' % (obj.t['b'], name, len(args)))
        f = self.pick(fs, args)
        self.last = f
        r = self.I.call(self.st, f, obj, list(args))
        if raw: return r
        if isinstance(r, Ptr) and f['ret'].get('ref') and not f['ret'].get('ptr'): r = self.I.deref(r)
        return self.I.load(self.st, r)
    def call_raw(self, obj, name, *args):
        last = getattr(self, 'last', None)
        r = self.call(obj, name, *args, raw=True); self.last = last
        return self.I.deref(r) if isinstance(r, Ptr) else r
    @property
    def eps(self):
        from fractions import Fraction as Fr
        return S.of(1) / 10000
    def static(self, cls, name, *args, raw=False):
        cs = (NS + cls, NS + cls + '<%s>' % self.scalar, cls)
        fs = [f for f in self.P.fun.values() if f.get('cls') in cs and f['n'] == name and len(f['params']) == len(args)]
        if not fs: raise ir.AnalysisBroken('%s::%s is gone' % (cls, name))
        self.last = self.pick(fs, args)
        h = self.I.handler(self.last)
        r = h(self.I, self.st, None, list(args), {'f': {'id': self.last['id']}}, None) if h else self.I.call(self.st, self.last, None, list(args))
        return r if raw else self.I.load(self.st, r)
    def field(self, obj, *names):
        l = obj
        for n in names:
            fs = dict(self.I.fields(l.t['b']) or [])
            if n not in fs: raise ir.AnalysisBroken('member %s of %s is gone' % (n, l.t['b']))
            l = self.I.member(self.st, l, n, fs[n])
        return l
    def get(self, obj, *names): return self.I.load(self.st, self.field(obj, *names))
    def set(self, obj, names, v):
        l = self.field(obj, *([names] if isinstance(names, str) else names)); self.I.store(self.st, l, v)
    def leaf(self, loc, *names):
        """loaded public data member of a struct lvalue (e.g. LinearDynamic)"""
        if isinstance(loc, Ptr): loc = self.I.deref(loc)
        return self.I.load(self.st, self.I.member(self.st, loc, names[0], dict(self.I.fields(loc_t(loc)['b']) or []).get(names[0]))) if len(names) == 1 else self.leaf(self.I.member(self.st, loc, names[0], dict(self.I.fields(loc_t(loc)['b']))[names[0]]), *names[1:])
    def where(self):
        f = getattr(self, 'last', None)
        return '%s:%s %s' % (f.get('file', '?'), f.get('l', '?'), f['id']) if f else ''

def loc_t(x):
    return x.alts[0][1].t if isinstance(x, Multi) else x.t
