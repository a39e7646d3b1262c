"""Random interpretation of value terms (Gulwani & Necula): a term extracted from the source is evaluated in
a randomly chosen algebra (small sizes, random rationals, uninterpreted functions as random tables).  Used
only to decide an equality of two terms that the normal form did not settle: a disagreement is a witness
that the terms differ, repeated agreement leaves the equality undecided-but-not-refuted."""
import math, random, time
from fractions import Fraction as Fr
from . import alg
from .alg import S, M, Atom, MAtom

class Undefined(Exception): pass

# results of the real-valued functions are approximated: such a run may not rest on a difference below TOL
TOL = Fr(1, 10**7)
MATH = {n: getattr(math, n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'atan2', 'pow')}
def opaque(n):
    """names of operations the analysis knows nothing about: no interpretation of them refutes anything"""
    return isinstance(n, str) and (n.startswith(('ext:', 'eig.', 'eigm.', 'bin', 'cmp')) or n in ('opq-join', 'bool', 'lit', 'sizeof', 'capacity', 'obj'))
def near(x, y): return abs(x - y) <= TOL * max(1, abs(x), abs(y))

BOUND = ('bv', 'fh', 'fw', 'fp', 'w', 'ow', 'lw', 'ph')

_FV = {}; _NONE = frozenset()
def fv(x):
    """the bound variables (and enclosing loop states) a term depends on"""
    if isinstance(x, (S, M)):
        k = ('t', id(x)); r = _FV.get(k)
        if r is not None: return r[0]
        out = _NONE
        if isinstance(x, S):
            for m in x.t:
                for a, _ in m: out = out | fv(alg._by_id[a])
        else:
            out = fv(x.r) | fv(x.c)
            for (b, mono), v in x.t.items():
                o = fv(v)
                for f, _ in mono: o = o | fv(alg._mby_id[f])
                for i in range(len(b) - 1, -1, -1): o = (o - {alg.bv(i)}) | fv(b[i][0]) | fv(b[i][1])
                out = out | o
        _FV[k] = (out, x); return out
    if isinstance(x, _Grp): return _fvloop(x.A)
    if isinstance(x, (Atom, MAtom)):
        k = ('a', id(x)); r = _FV.get(k)
        if r is not None: return r[0]
        out = _NONE if isinstance(x, Atom) else fv(x.r) | fv(x.c)
        kd = x.kind
        if kd in ('fold', 'wfold'):
            out = out | _fvloop(x) | fv(x.args[6:])
        elif kd == 'fh': out = out | {('fold', x.args[0].args[0])} | fv(x.args[1:])
        elif kd == 'sum':
            lo, hi, d = x.args
            out = out | fv(lo) | fv(hi) | (fv(d) - {alg.atom('w', (), name='w', integer=True)})
        elif kd in BOUND: out = out | {x}
        else: out = out | fv(x.args)
        _FV[k] = (out, x); return out
    if isinstance(x, (tuple, list)):
        out = _NONE
        for y in x: out = out | fv(y)
        return out
    return _NONE

def _fvloop(x):
    lv, j, lead, ins, ps, ds = x.args[:6]
    fp = frozenset(alg.atom('fp', (lv, i), name='fp%d.%d' % (lv, i), integer=True, lb=0) for i in range(4))
    loc = fp | {alg.atom('fw', (lv,), name='fw%d' % lv, integer=True, lb=0), ('fold', lv)}
    return (fv(ps) - loc) | (fv(ins) - fp) | ((fv(lead) - loc) if x.kind == 'wfold' else fv(lead))

class _Grp:
    """the loop a fold atom is a result of (shared by its results)"""
    kind = 'grp'
    def __init__(self, A): self.A = A
_GRP = {}
def _group(A):
    k = (A.kind, A.args[0], id(A.args[2]), id(A.args[3]), id(A.args[4]))
    g = _GRP.get(k)
    if g is None: g = _GRP[k] = _Grp(A)
    return g

class Env:
    def __init__(self, seed, over=None, sizes=(1, 4)):
        self.rng = random.Random(seed); self.over = over or {}; self.sizes = sizes
        self.tab = {}; self.cache = {}; self.mcache = {}
        self.b = {}            # bindings of bound atoms (by atom) and fold states
        self.steps = 0
        self.keep = {}
        self.keyrnd = seed; self.trace = None; self.inexact = False; self.free_ok = False; self.limit = 400000

    def key(self, A):
        """memo key: the term with the current values of the bound variables it depends on"""
        v = fv(A)
        if not v: return A
        k = [A]
        for x in sorted(v, key=id) if len(v) > 1 else v:
            y = self.b.get(x)
            if isinstance(x, tuple): self.keep[id(y)] = y; y = id(y)
            k.append((id(x) if not isinstance(x, tuple) else x, y))
        return tuple(k)

    def rnd(self, key, integer=False, boolean=False, lb=None):
        v = self.tab.get(key)
        if self.trace is not None: self.trace[key] = (integer, boolean, lb)
        if v is None:
            r = random.Random('%s|%s' % (self.keyrnd, key))
            if boolean: v = Fr(r.randint(0, 1))
            elif integer and lb is not None: v = Fr(r.randint(max(int(lb), 0 if lb <= 0 else int(lb)), self.sizes[1] + max(int(lb) - 1, 0)))
            elif integer: v = Fr(r.randint(self.sizes[0], self.sizes[1]))
            else:
                v = Fr(r.randint(1, 40), r.choice([1, 2, 3, 5, 7]))
                if lb is None and r.random() < 0.5: v = -v
                if lb is not None: v += lb
            self.tab[key] = v
        return v

    # ------------------------------------------------------------ scalars
    def s(self, x):
        self.steps += 1
        if self.steps > self.limit: raise Undefined('too large')
        tot = Fr(0)
        for m, c in x.t.items():
            v = c
            ok = True
            rest = []
            for a, e in m:
                A = alg._by_id[a]
                if A.boolean:
                    if self.a(A) == 0: ok = False; break
                else: rest.append((A, e))
            if not ok: continue
            for A, e in rest:
                y = self.a(A)
                if y == 0 and e < 0: raise Undefined('division by zero')
                v = v * y ** e
                if v == 0: break
            tot += v
        return tot

    def arg(self, a):
        if isinstance(a, S): return self.s(a)
        if isinstance(a, M): return tuple(map(tuple, self.m(a)))
        if isinstance(a, Atom): return self.a(a)
        if isinstance(a, tuple): return tuple(self.arg(x) for x in a)
        if isinstance(a, MAtom): return tuple(map(tuple, self.ma(a)))
        return a

    def a(self, A):
        if A in self.over:
            o = self.over[A]
            return Fr(o(self) if callable(o) else o)
        if A in self.b: return self.b[A]
        k = A.kind
        key = self.key(A)
        if key in self.cache:
            v = self.cache[key]
            if v is None: raise Undefined('cached')
            return v
        try: v = self.a_(A, k)
        except Undefined:
            self.cache[key] = None
            raise
        self.cache[key] = v
        return v

    def a_(self, A, k):
        if k in ('lt0', 'eq0'):
            v = self.s(A.args[0])
            if self.inexact and v != 0 and abs(v) < TOL: raise Undefined('too close')
            return Fr(int(v < 0 if k == 'lt0' else v == 0))
        if k == 'poly': return self.s(A.args[0])
        if k == 'el':
            fs = list(A.args); cur = None; n = len(fs); last = None
            if n > 1 and fs[0][1].kind == 'E' and fs[0][2]:      # a row of what follows
                i, d = self.unit(fs[0][1]); X = self.ma(fs[1][1]); r, c = self.dim(fs[1][1].r), self.dim(fs[1][1].c)
                if d != (c if fs[1][2] else r): raise Undefined('inner shape')
                if fs[1][2]: cur = [[row[i] for row in X]]
                else: cur = [X[i]]
                fs = fs[2:]
            if fs and cur is not None and fs[-1][1].kind == 'E' and not fs[-1][2]:
                last = self.unit(fs[-1][1]); fs = fs[:-1]
            for (_, MA, t) in fs:
                X = self.ma(MA)
                if t: X = tr(X, self.s(MA.r), self.s(MA.c))
                cur = X if cur is None else mm(cur, X)
            if last is not None:
                if len(cur[0]) != last[1]: raise Undefined('inner shape')
                return cur[0][last[0]]
            if len(cur) != 1 or len(cur[0]) != 1: raise Undefined('el')
            return cur[0][0]
        if k == 'sum':
            lo, hi, d = A.args
            w = alg.atom('w', (), name='w', integer=True)
            lo, hi = self.s(lo), self.s(hi)
            old = self.b.get(w); tot = Fr(0)
            i = lo
            while i < hi:
                self.b[w] = i; tot += self.s(d); i += 1
            if old is None: self.b.pop(w, None)
            else: self.b[w] = old
            return tot
        if k in ('fold', 'wfold'): return self.fold(A)
        if k == 'fh':
            st = self.b.get(('fold', A.args[0].args[0]))
            if st is None: raise Undefined('unbound fold variable')
            return st[A.args[0].args[1]](tuple(self.s(x) for x in A.args[1:]))
        if k == 'uf':
            n = A.args[0]; args = [self.arg(x) for x in A.args[1:]]
            return self.ufv(n, args, A)
        if k in ('fw', 'fp', 'bv', 'w', 'ow', 'lw', 'lhb'):
            if self.free_ok: return self.rnd((k, A.args), integer=True, lb=0)
            raise Undefined('unbound ' + A.name)
        if k == 'ph': return self.rnd(('ph', A.args), integer=True, lb=0)
        args = tuple(self.arg(x) for x in A.args)
        return self.rnd((k, args), A.integer, A.boolean, A.lb)

    def ufv(self, n, args, A):
        if n == 'abs': return abs(args[0])
        if n == 'trunc':
            v = args[0]; return Fr(int(v))
        if n == 'floor': return Fr(args[0].numerator // args[0].denominator)
        if n == 'ceil': return -Fr((-args[0].numerator) // args[0].denominator)
        if n == 'idiv':
            if args[1] == 0: raise Undefined('div')
            return Fr(int(args[0] / args[1]))
        if n == 'mod':
            if args[1] == 0: raise Undefined('mod')
            return args[0] - args[1] * int(args[0] / args[1])
        if n == 'mateq': return Fr(1 if args[0] == args[1] else 0)
        if n == 'div0': raise Undefined('division by zero')
        if n == 'sqrt':
            v = args[0]
            if v < 0: raise Undefined('sqrt')
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return Fr(a, b)
            self.inexact = True
            return Fr(math.isqrt(v.numerator * 10**48 // v.denominator), 10**24)
        if n in MATH:
            self.inexact = True
            try: return Fr(MATH[n](*map(float, args)))
            except (ValueError, OverflowError, ZeroDivisionError): raise Undefined(n)
        if opaque(n): raise Undefined('unmodelled ' + n)
        return self.rnd(('uf', n, tuple(args)), A.integer, A.boolean, A.lb)

    # ------------------------------------------------------------ folds
    def fold(self, A):
        lv, j, lead, ins, ps, ds = A.args[:6]
        idx = tuple(self.s(x) for x in A.args[6:])
        g = self.key(_group(A))
        st = self.cache.get(g)
        if st is None: st = self.cache[g] = self.run(A.kind, lv, lead, ins, ps, ds)
        return st[j](idx)

    def run(self, kind, lv, lead, ins, ps, ds):
        fp = [alg.atom('fp', (lv, i), name='fp%d.%d' % (lv, i), integer=True, lb=0) for i in range(4)]
        fw = alg.atom('fw', (lv,), name='fw%d' % lv, integer=True, lb=0)
        skey = ('fold', lv)
        def mk(expr, state, w):
            memo = {}
            # bindings in force when the closure is evaluated later
            snap = {k: v for k, v in self.b.items()}
            def f(idx):
                if idx in memo: return memo[idx]
                old = self.b
                self.b = dict(snap)
                if state is not None: self.b[skey] = state
                if w is not None: self.b[fw] = w
                for i, x in enumerate(idx): self.b[fp[i]] = x
                try: v = self.s(expr) if isinstance(expr, S) else self.m(expr)
                finally: self.b = old
                memo[idx] = v
                return v
            return f
        def strict(fs):
            return fs
        state = [mk(x, None, None) for x in ins]
        if kind == 'fold':
            n = int(self.s(lead))
            if n > 60: raise Undefined('long loop')
            for i in range(n): 
                state = [mk(p, state, Fr(i)) for p in ps]
                for f, d in zip(state, ds):
                    if d == 0:
                        try: f(())
                        except Undefined: pass
            return state
        for i in range(80):
            old = self.b; self.b = dict(old); self.b[skey] = state
            try: c = self.s(lead)
            finally: self.b = old
            if c == 0: return state
            state = [mk(p, state, Fr(i)) for p in ps]
            for f, d in zip(state, ds):
                if d == 0:
                    try: f(())
                    except Undefined: pass
        raise Undefined('unbounded loop')

    # ------------------------------------------------------------ matrices
    def unit(self, A):
        """(index, length) of a unit column vector"""
        r, c = self.dim(A.r), self.dim(A.c); off = self.s(A.args[0])
        if c != 1 or off < 0 or off + 1 > r: raise Undefined('E range')
        return int(off), r
    def dim(self, s):
        v = self.s(s)
        if v.denominator != 1 or v < 0: raise Undefined('dimension %s' % v)
        if v > 60: raise Undefined('large')
        return int(v)

    def m(self, x):
        r, c = self.dim(x.r), self.dim(x.c)
        acc = [[Fr(0)] * c for _ in range(r)]
        for (b, mono), v in x.t.items():
            self.term(b, 0, mono, v, acc, r, c)
        return acc

    def term(self, b, i, mono, v, acc, r, c):
        if i < len(b):
            lo, hi = self.s(b[i][0]), self.s(b[i][1])
            w = alg.bv(i); old = self.b.get(w)
            k = lo
            while k < hi:
                self.b[w] = k
                self.term(b, i + 1, mono, v, acc, r, c); k += 1
            if old is None: self.b.pop(w, None)
            else: self.b[w] = old
            return
        co = self.s(v)
        if co == 0: return
        if not mono:
            if r != c: raise Undefined('identity shape')
            for k in range(r): acc[k][k] += co
            return
        cur = None
        for f, t in mono:
            A = alg._mby_id[f]
            X = self.ma(A)
            if t: X = tr(X, self.s(A.r), self.s(A.c))
            cur = X if cur is None else mm(cur, X)
        if len(cur) != r or (r and len(cur[0]) != c): raise Undefined('shape')
        for p in range(r):
            for q in range(c): acc[p][q] += co * cur[p][q]

    def ma(self, A):
        if A in self.over: return self.over[A](self)
        key = self.key(A)
        if key in self.mcache:
            v = self.mcache[key]
            if v is None: raise Undefined('cached')
            return v
        try: v = self.ma_(A)
        except Undefined:
            self.mcache[key] = None
            raise
        self.mcache[key] = v
        return v

    def ma_(self, A):
        r, c = self.dim(A.r), self.dim(A.c)
        k = A.kind
        if k == 'E':
            off = self.s(A.args[0])
            if off < 0 or off + c > r: raise Undefined('E range')
            off = int(off)
            return [[Fr(1 if i == off + j else 0) for j in range(c)] for i in range(r)]
        if k == 'ones': return [[Fr(1)] for _ in range(r)]
        if k == 'rectI': return [[Fr(1 if i == j else 0) for j in range(c)] for i in range(r)]
        if k == 'abbr': return self.m(A.args[0])
        if k == 'inv': return minv(self.m(A.args[0]))
        if k in ('fold', 'wfold'):
            v = self.fold(A)
            return v
        if k == 'fh':
            st = self.b.get(('fold', A.args[0].args[0]))
            if st is None: raise Undefined('unbound fold variable')
            return st[A.args[0].args[1]](tuple(self.s(x) for x in A.args[1:]))
        args = tuple(self.arg(x) for x in A.args)
        if k == 'uf' and opaque(A.args[0]): raise Undefined('unmodelled ' + A.args[0])
        if k == 'uf' and A.args[0] == 'diag':
            return [[args[1][i][0] if i == j else Fr(0) for j in range(c)] for i in range(r)]
        if k == 'uf' and isinstance(A.args[0], str) and A.args[0].startswith('dyn.'):
            v = prediction(A.args[0], args[1:], r, c)
            if v is not None: return v
        key = (k, args)
        return [[self.rnd((key, i, j)) for j in range(c)] for i in range(r)]

CHAIN = {'computePosDynamic': ('pos', 3), 'computeVelDynamic': ('vel', 3), 'computeAccDynamic': ('acc', 3),
         'computeOrder2PosDynamic': ('pos', 2), 'computeOrder2VelDynamic': ('vel', 2)}
def prediction(name, args, r, c):
    """the actual prediction matrix (what C01 establishes about the function), so that identities that hold
    only for these matrices (they commute, they are triangular) are not refuted"""
    _, fn, part = name.split('.')
    if fn not in CHAIN or len(args) != 3 or not all(isinstance(x, Fr) for x in args): return None
    Sp, T, n = args
    if n != r or Sp <= 0 or T <= 0: return None
    chain, order = CHAIN[fn]
    def free(t):
        if order == 3: return {'pos': [Fr(1), t, t * t / 2], 'vel': [Fr(0), Fr(1), t], 'acc': [Fr(0), Fr(0), Fr(1)]}[chain]
        return {'pos': [Fr(1), t], 'vel': [Fr(0), Fr(1)]}[chain]
    if part == 'S': return [free(Sp + i * T) for i in range(r)]
    if part != 'U': return None
    k = {'pos': 3, 'vel': 2, 'acc': 1}[chain] - (3 - order)
    f = {1: 1, 2: 2, 3: 6}[k]
    def resp(i, j):
        if j > i: return Fr(0)
        t = Sp + i * T; a, b = (Fr(0), Sp) if j == 0 else (Sp + (j - 1) * T, Sp + j * T)
        return ((t - a) ** k - (t - b) ** k) / f
    return [[resp(i, j) for j in range(c)] for i in range(r)]

def tr(X, r, c):
    if not X: return [[] for _ in range(int(c))]
    return [list(z) for z in zip(*X)] if X[0] else []

def mm(X, Y):
    if not X: return []
    n = len(X[0])
    if n != len(Y): raise Undefined('inner shape')
    if n == 0: raise Undefined('empty inner')
    q = len(Y[0])
    return [[sum(X[i][k] * Y[k][j] for k in range(n) if X[i][k] and Y[k][j]) or Fr(0) for j in range(q)] for i in range(len(X))]

def minv(X):
    n = len(X)
    if any(len(r) != n for r in X): raise Undefined('inverse shape')
    A = [list(r) + [Fr(1 if i == j else 0) for j in range(n)] for i, r in enumerate(X)]
    for i in range(n):
        p = next((k for k in range(i, n) if A[k][i] != 0), None)
        if p is None: raise Undefined('singular')
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        A[i] = [x / d for x in A[i]]
        for k in range(n):
            if k != i and A[k][i] != 0:
                f = A[k][i]
                A[k] = [x - f * y for x, y in zip(A[k], A[i])]
    return [r[n:] for r in A]

def sample(seed, over, sizes, assume, rounds=60):
    """a random interpretation that satisfies the assumptions: start anywhere, repair violated ones by moving
    one symbol at a time"""
    rng = random.Random('s%s' % seed); preset = {}
    def env(): 
        e = Env(seed, over, sizes); e.tab.update(preset); return e
    def bad(e):
        out = []
        for f in assume:
            try: 
                if e.s(f) < 0: out.append(f)
            except Undefined: out.append(f)
        return out
    e = env(); b = bad(e)
    for _ in range(rounds):
        if not b: return e
        f = rng.choice(b); x = env(); x.trace = {}
        try: d = x.s(f)
        except Undefined: d = None
        keys = sorted(x.trace, key=str)
        if not keys: return None
        k = rng.choice(keys); integer, boolean, lb = x.trace[k]; old = x.tab[k]
        if d is not None and not boolean and rng.random() < .7:
            x = env(); x.tab[k] = old + 1
            try: g = x.s(f) - d
            except Undefined: g = 0
            v = old - d / g * (1 + Fr(rng.randint(0, 8), 4)) if g else None
            if v is not None and integer: v = Fr(-((-v.numerator) // v.denominator)) if g > 0 else Fr(v.numerator // v.denominator)
        else: v = None
        if v is None:
            v = Fr(rng.randint(0, 1)) if boolean else Fr(rng.randint(int(lb or 0), sizes[1])) if integer else Fr(rng.randint(1, 40), rng.choice((1, 3, 7, 30, 300))) * rng.choice((1, 1, -1))
        if lb is not None and v < lb: continue
        if integer and v > 8 + sizes[1]: continue
        preset[k] = v; n = env(); c = bad(n)
        if len(c) <= len(b): e, b = n, c
        else: preset[k] = old
    return e if not b else None

def compare(a, b, assume=(), over=None, tries=10, seed=1, want=4, budget=None):
    """('NE', witness) | ('AGREE', n) | ('UNK', reason)"""
    good = 0; why = ''
    t0 = time.time()
    for t in range(tries * 12):
        if budget and t and time.time() - t0 > budget: break
        try:
            env = sample('%s-%d' % (seed, t), over, (1, 3 + t % 3), assume)
            if env is None: why = why or 'no interpretation satisfies the assumptions'; continue
            env.steps = 0
            x = env.s(a) if isinstance(a, S) else env.m(a)
            y = env.s(b) if isinstance(b, S) else env.m(b)
        except Undefined as ex:
            why = str(ex); continue
        except (OverflowError, RecursionError) as ex:
            why = 'overflow'; continue
        good += 1
        if x != y:
            if env.inexact:
                if isinstance(x, Fr): d = [(x, y)]
                else: d = [(u, v) for p, q in zip(x, y) for u, v in zip(p, q)] if [len(p) for p in x] == [len(q) for q in y] else None
                if d is not None and all(near(u, v) for u, v in d):
                    if good >= want: break
                    continue
            return 'NE', witness(env, x, y)
        if good >= want: break
    if good: return 'AGREE', good
    return 'UNK', why

MARGIN = Fr(1, 10**6)
def guards(a, b):
    """the comparisons either term depends on, that no loop variable takes part in"""
    xs = alg.free_atoms(a) ^ alg.free_atoms(b)
    return sorted((x for x in xs if isinstance(x, Atom) and x.kind in ('lt0', 'eq0') and not fv(x)), key=lambda x: (len(str(x.name)), str(x.name)))

def cases(a, b, assume=(), over=None, seed=1, limit=14, budget=6):
    """compare() under each outcome of the comparisons only one of the terms depends on: an outcome that
    random values hardly ever meet is brought about by moving the operands"""
    t0 = time.time()
    for A in guards(a, b)[:limit]:
        p = A.args[0]; ints = [S.of(x) for x in alg.free_atoms(p) if isinstance(x, Atom) and x.integer and x.lb is None]   # integers are drawn from 0 up
        for f in ([p, -p],) if A.kind == 'eq0' else ([-p - MARGIN], [p - MARGIN]):
            if time.time() - t0 > budget: return 'UNK', ''
            r, why = compare(a, b, assume=list(assume) + ints + f, over=over, tries=2, seed='%s-%s' % (seed, len(f)), want=2, budget=1)
            if r == 'NE': return r, why + ' where %s is %s' % (str(p)[:120], '0' if A.kind == 'eq0' else 'negative' if f[0] is not p and (f[0] + p + MARGIN).is0() else 'positive')
    return 'AGREE', ''

def refuted(e, facts, tries=6):
    """True when some random interpretation consistent with the facts makes scalar e nonzero"""
    facts = [f for f in facts]
    for t in range(tries):
        env = Env('z%d' % t, None, sizes=(1, 3 + t % 3)); env.free_ok = True; env.limit = 20000
        try:
            if any(env.s(f) < 0 for f in facts): continue
            v = env.s(e)
            if v != 0 and not (env.inexact and abs(v) < TOL): return True
        except (Undefined, OverflowError, RecursionError): continue
    return False

def witness(env, x, y):
    if isinstance(x, list):
        if len(x) != len(y) or (x and len(x[0]) != len(y[0])):
            return 'shapes %dx%d / %dx%d' % (len(x), len(x[0]) if x else 0, len(y), len(y[0]) if y else 0)
        for i in range(len(x)):
            for j in range(len(x[0])):
                if x[i][j] != y[i][j]: return 'entry (%d,%d): %s / %s' % (i, j, x[i][j], y[i][j])
    return '%s / %s' % (x, y)
