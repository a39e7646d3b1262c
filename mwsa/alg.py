"""Value domain of the analysis.

Scalars (class S): Laurent polynomials with rational coefficients over interned atoms.  Booleans are
0/1-valued scalars whose indicator atoms are idempotent.  Matrices (class M): noncommutative
polynomials over interned matrix atoms, with
  E(off,len,total)   the total x len selection matrix (columns off..off+len of the identity),
  ones(n)            the n x 1 vector of ones,
  inverse(.)         hash-consed,
and with bound index variables (finite sums) attached to terms, which is how counted loops are
summarised.  Unknown operations become uninterpreted atoms (congruence only).
Everything is parametric in the sizes: no size is ever fixed to a number.
"""
from fractions import Fraction as Fr
import itertools, math

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'boolean', 'lb', 'integer', 'srcs', '_fa')
    def __init__(self, id, kind, args, name, boolean, lb, integer):
        self.id = id; self.kind = kind; self.args = args; self.name = name
        self.boolean = boolean; self.lb = lb; self.integer = integer
        self._fa = None
    def __repr__(self): return self.name

_atoms = {}
_by_id = []

def _argkey(a):
    if isinstance(a, S): return ('s', a.key())
    if isinstance(a, M): return ('m', a.key())
    if isinstance(a, Atom): return ('a', a.id)
    if isinstance(a, MAtom): return ('ma', a.id)
    if isinstance(a, tuple): return tuple(_argkey(x) for x in a)
    return a

def atom(kind, args=(), name=None, boolean=False, lb=None, integer=False):
    k = (kind, tuple(_argkey(a) for a in args))
    r = _atoms.get(k)
    if r is None:
        if name is None:
            name = kind + ('(' + ','.join(show(a) for a in args) + ')' if args else '')
            if len(name) > 240: name = name[:236] + '...)'
        r = Atom(len(_by_id), kind, tuple(args), name, boolean, lb, integer)
        _atoms[k] = r; _by_id.append(r)
    return r

def show(a):
    if isinstance(a, tuple): return '[' + ','.join(show(x) for x in a) + ']'
    return str(a)

_fresh = itertools.count()
def fresh(prefix, **kw):
    n = next(_fresh)
    return atom('fresh', (prefix, n), name='%s#%d' % (prefix, n), **kw)

class Facts:
    """Stack of scalars known to be >= 0 (sizes, loop ranges, assertions)."""
    def __init__(self): self.l = []; self.ids = [0]; self._int = {}
    def push(self, s):
        self.l.append(s)
        k = (self.ids[-1], s)
        i = self._int.get(k)
        if i is None: i = self._int[k] = len(self._int) + 1
        self.ids.append(i)
    def mark(self): return len(self.l)
    def release(self, n): del self.l[n:]; del self.ids[n + 1:]
    @property
    def sid(self): return self.ids[-1]
FACTS = Facts()

# ------------------------------------------------------------------ scalars
class S:
    __slots__ = ('t', '_k', '_h', '_fa')
    def __init__(self, t): self.t = t; self._k = None; self._h = None; self._fa = None
    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, S): return x
        if isinstance(x, Atom): return S({((x.id, 1),): Fr(1)})
        if isinstance(x, bool): x = int(x)
        x = Fr(x)
        return S({(): x}) if x else ZERO
    def key(self):
        if self._k is None: self._k = tuple(sorted(self.t.items()))
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(self, o): return isinstance(o, S) and self.t == o.t
    def is0(self): return not self.t
    def const(self):
        if not self.t: return Fr(0)
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def is1(self): return self.t == ONE.t
    def __add__(self, o):
        o = S.of(o)
        if not o.t: return self
        if not self.t: return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: del r[m]
        return S(r)
    __radd__ = __add__
    def __neg__(self): return S({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-S.of(o))
    def __rsub__(self, o): return S.of(o) + (-self)
    def __mul__(self, o):
        o = S.of(o)
        if not self.t or not o.t: return ZERO
        if o.t == ONE.t: return self
        if self.t == ONE.t: return o
        r = {}; extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, ex = _mmul(m1, m2)
                c = c1 * c2
                if ex is None:
                    v = r.get(m, 0) + c
                    if v: r[m] = v
                    else: del r[m]
                else:
                    e = S({m: c}) * ex
                    extra = e if extra is None else extra + e
        s = S(r)
        return s if extra is None else s + extra
    __rmul__ = __mul__
    def recip(self):
        if not self.t: raise ZeroDivisionError
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if not any(_by_id[a].boolean for a, e in m):
                return S({tuple((a, -e) for a, e in m): 1 / c})
        # content
        items = sorted(self.t.items())
        lead = items[0][1]
        com = None
        for m, c in items:
            d = dict(m)
            com = d if com is None else {a: min(e, d.get(a, 0)) for a, e in com.items() if min(e, d.get(a, 0)) != 0 and (a in d)}
        com = {a: e for a, e in (com or {}).items() if e > 0 and not _by_id[a].boolean}
        inv = S({tuple(sorted((a, -e) for a, e in com.items())): 1 / lead})
        p = self * inv
        if len(p.t) == 1 and () in p.t: return inv * (1 / p.t[()])
        pa = atom('poly', (p,), name='(' + str(p) + ')')
        return inv * S({((pa.id, -1),): Fr(1)})
    def __truediv__(self, o):
        o = S.of(o)
        c = o.const()
        if c is not None: return self * S.of(1 / c)
        return self.cancel(o)
    def cancel(self, o):
        """self/o, with exact division tried first."""
        if len(o.t) > 1:
            q = divide(self, o)
            if q is not None: return q
        return self * o.recip()
    def __rtruediv__(self, o): return S.of(o) / self
    def __pow__(self, n):
        if n < 0: return (self ** (-n)).recip()
        r = ONE
        for _ in range(n): r = r * self
        return r
    def atoms(self):
        r = set()
        for m in self.t:
            for a, e in m: r.add(_by_id[a])
        return r
    def __str__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
            f = '*'.join(str(_by_id[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not f: out.append(str(c))
            elif c == 1: out.append(f)
            elif c == -1: out.append('-' + f)
            else: out.append('%s*%s' % (c, f))
        return ' + '.join(out).replace('+ -', '- ')
    __repr__ = __str__

ZERO = S({})
ONE = S({(): Fr(1)})

def _mmul(m1, m2):
    """product of two monomials; second result: polynomial factor (positive powers of 'poly' atoms)"""
    if not m1: return m2, None
    if not m2: return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    ex = None
    out = []
    for a in sorted(d):
        e = d[a]
        if not e: continue
        A = _by_id[a]
        if A.boolean: e = 1
        if A.kind == 'poly' and e > 0:
            p = A.args[0] ** e
            ex = p if ex is None else ex * p
            continue
        out.append((a, e))
    return tuple(out), ex

def divide(p, q):
    """exact polynomial division p/q or None (multivariate, lex order on monomials)"""
    if len(p.t) > 400: return None
    def lead(s):
        return max(s.t.items(), key=lambda kv: (sum(e for _, e in kv[0]), kv[0]))
    lm, lc = lead(q)
    ld = dict(lm)
    quo = ZERO; rem = p
    n = 0
    while rem.t:
        n += 1
        if n > 200: return None
        m, c = lead(rem)
        d = dict(m)
        for a, e in ld.items():
            d[a] = d.get(a, 0) - e
            if d[a] < 0: return None
        t = S({tuple(sorted((a, e) for a, e in d.items() if e)): c / lc})
        quo = quo + t
        new = rem - t * q
        if new.t and lead(new)[0] == m: return None
        rem = new
    return quo

def num(s):
    """clear denominators made of 'poly' atoms: a scalar that is zero iff s is"""
    while True:
        worst = {}
        for m in s.t:
            for a, e in m:
                if e < 0 and _by_id[a].kind == 'poly':
                    worst[a] = min(worst.get(a, 0), e)
        if not worst: return s
        a, e = next(iter(worst.items()))
        r = ZERO
        p = _by_id[a].args[0]
        for m, c in s.t.items():
            d = dict(m)
            k = d.pop(a, 0) - e
            r = r + S({tuple(sorted(d.items())): c}) * (p ** k)
        s = r

def eq(a, b):
    d = S.of(a) - S.of(b)
    if d.is0(): return True
    return num(d).is0()

# ------------------------------------------------------------------ sign reasoning
def _shift(s):
    """replace every atom with lower bound lb by lb+itself (then atoms are >=0)"""
    return s

_ge0memo = {}
def ge0(s, depth=3):
    """True when s >= 0 is proved from atom lower bounds and FACTS"""
    k = (FACTS.sid, s, depth)
    r = _ge0memo.get(k)
    if r is None: r = _ge0memo[k] = _ge0(s, depth)
    return r

def _ge0(s, depth):
    if _ge0_basic(s): return True
    if depth <= 0: return False
    # subtract a fact that removes a negative monomial
    neg = [m for m, c in s.t.items() if c < 0]
    if not neg: 
        neg = [m for m, c in s.t.items()]
    for f in FACTS.l:
        for m in neg:
            cf = f.t.get(m)
            if cf is None: continue
            lam = s.t[m] / cf
            if lam <= 0: continue
            r = s - f * lam
            if len(r.t) > len(s.t) + 2: continue
            if ge0(r, depth - 1): return True
    # products: fact f>=0 times nonneg atom
    if depth >= 2:
        for f in FACTS.l:
            for m in neg:
                if len(m) < 2: continue
                for i, (a, e) in enumerate(m):
                    if e != 1 or _by_id[a].lb is None or _by_id[a].lb < 0: continue
                    rest = m[:i] + m[i + 1:]
                    cf = f.t.get(rest)
                    if cf is None: continue
                    lam = s.t[m] / cf
                    if lam <= 0: continue
                    r = s - f * S({((a, 1),): lam})
                    if len(r.t) > len(s.t) + 2: continue
                    if ge0(r, depth - 2): return True
    return False

def _ge0_basic(s):
    if not s.t: return True
    # substitute a = lb + a'
    r = {}
    for m, c in s.t.items():
        polys = [((), c)]
        for a, e in m:
            A = _by_id[a]
            lb = 0 if A.boolean else A.lb
            if lb is None:
                if e % 2 == 0:
                    lb = 0
                else:
                    polys = [(mm + ((a, e, '?'),), cc) for mm, cc in polys]; continue
            if e < 0:
                polys = [(mm + ((a, e),), cc) for mm, cc in polys]; continue
            if lb == 0:
                polys = [(mm + ((a, e),), cc) for mm, cc in polys]; continue
            new = []
            from math import comb
            for mm, cc in polys:
                for k in range(e + 1):
                    co = comb(e, k) * Fr(lb) ** (e - k)
                    new.append((mm + (((a, k),) if k else ()), cc * co))
            polys = new
        for mm, cc in polys: r[mm] = r.get(mm, 0) + cc
    for mm, cc in r.items():
        if cc == 0: continue
        if any(len(x) == 3 for x in mm): return False
        if cc < 0: return False
    return True

def all_int(s):
    return all(c.denominator == 1 for c in s.t.values()) and all(
        _by_id[a].integer and e > 0 for m in s.t for a, e in m)

def gt0(s):
    if all_int(s): return ge0(s - 1)
    c = s.const()
    if c is not None: return c > 0
    # positive constant part and the rest >= 0
    if () in s.t and s.t[()] > 0 and ge0(s - s.t[()]): return True
    # the same after subtracting a fact that accounts for one monomial
    for f in FACTS.l:
        if () not in f.t or f.t[()] >= 0: continue
        for m, c in s.t.items():
            if not m or m not in f.t or c / f.t[m] <= 0: continue
            r = s - f * (c / f.t[m])
            if r.t.get((), 0) > 0 and len(r.t) <= len(s.t) + 1 and ge0(r - r.t[()]): return True
    return False

def sign(s):
    """'0','+','-','>=0','<=0',None"""
    if eq(s, 0): return '0'
    c = s.const()
    if c is not None: return '+' if c > 0 else '-'
    if gt0(s): return '+'
    if gt0(-s): return '-'
    if ge0(s): return '>=0'
    if ge0(-s): return '<=0'
    return None

# ------------------------------------------------------------------ booleans
def b_not(a): return ONE - a
def b_and(a, b): return a * b
def b_or(a, b): return a + b - a * b

def _norm_pos(p):
    """divide by the positive content of the smallest monomial's coefficient"""
    items = sorted(p.t.items())
    c = abs(items[-1][1])
    return p * (Fr(1) / c)

def lt0(p):
    """indicator of p < 0"""
    if any(_by_id[a].kind == 'ite' for m in p.t for a, e in m): pass
    sg = sign(p)
    if sg == '-': return ONE
    if sg in ('0', '+', '>=0'): return ZERO
    p = _norm_pos(p)
    if all_int(p):
        pass
    return S.of(atom('lt0', (p,), name='[%s<0]' % p, boolean=True, integer=True, lb=0))

def eq0(p):
    sg = sign(p)
    if sg == '0': return ONE
    if sg in ('+', '-'): return ZERO
    bs = [a for a in p.atoms()]
    if len(bs) == 1 and bs[0].boolean and set(p.t) <= {(), ((bs[0].id, 1),)}:
        k0 = p.t.get((), Fr(0)); k1 = k0 + p.t[((bs[0].id, 1),)]
        r = ZERO
        if k0 == 0: r = r + (ONE - S.of(bs[0]))
        if k1 == 0: r = r + S.of(bs[0])
        return r
    items = sorted(p.t.items())
    p = p * (Fr(1) / items[-1][1])
    return S.of(atom('eq0', (p,), name='[%s==0]' % p, boolean=True, integer=True, lb=0))

def cmp(op, a, b):
    a = S.of(a); b = S.of(b)
    if op == '<': return lt0(a - b)
    if op == '>': return lt0(b - a)
    if op == '<=': return b_not(lt0(b - a))
    if op == '>=': return b_not(lt0(a - b))
    if op == '==': return eq0(a - b)
    if op == '!=': return b_not(eq0(a - b))
    raise ValueError(op)

def assume_in(v, c, val):
    """simplify v under the assumption that boolean scalar c equals val (0/1)"""
    m = _bool_units(c, val)
    if not m: return v
    return subst(v, m)

def _bool_units(c, val):
    """atoms forced by c == val (unit propagation on single atoms, products, negated products)"""
    out = {}
    c = c if val else ONE - c
    def pos(c):
        # c == 1
        k = c.const()
        if k is not None: return
        if len(c.t) == 1:
            (m, co), = c.t.items()
            if co == 1:
                for a, e in m:
                    if _by_id[a].boolean: out[_by_id[a]] = ONE
                return
        n = ONE - c
        if len(n.t) == 1:
            (m, co), = n.t.items()
            if co == 1 and len(m) == 1 and _by_id[m[0][0]].boolean:
                out[_by_id[m[0][0]]] = ZERO
            return
        # common boolean factor: c = a * rest, or c = (1-a)*rest
        for a in c.atoms():
            if not a.boolean: continue
            if all(any(x == a.id for x, e in m) for m in c.t): out[a] = ONE
            elif subst(c, {a: ONE}).is0(): out[a] = ZERO
    pos(c)
    return out

_apartm = {}
def _apart(c):
    """for c = [p==0]: drops the monomials that need q == 0 with p - q a nonzero constant"""
    if len(c.t) != 1: return None
    (m, co), = c.t.items()
    if co != 1 or len(m) != 1 or _by_id[m[0][0]].kind != 'eq0': return None
    c0 = m[0][0]; p = _by_id[c0].args[0]
    def bad(at):
        k = (c0, at); r = _apartm.get(k)
        if r is None:
            A = _by_id[at]; r = False
            if at != c0 and A.kind == 'eq0':
                d = (p - A.args[0]).const(); r = d is not None and d != 0
            _apartm[k] = r
        return r
    def f(x):
        t = {m: v for m, v in x.t.items() if not any(bad(at) for at, e in m)}
        return x if len(t) == len(x.t) else S(t)
    return f

def ite(c, a, b):
    """c ? a : b for scalars and matrices"""
    c = S.of(c)
    if c.is1(): return a
    if c.is0(): return b
    if a is b: return a
    if isinstance(a, S) and isinstance(b, S):
        if a == b: return a
        a = assume_in(a, c, 1); b = assume_in(b, c, 0)
        x = _apart(c)
        if x is not None: return b + c * x(a - b)
        return c * a + (ONE - c) * b
    if isinstance(a, M) and isinstance(b, M):
        if a.same(b): return a
        a = assume_in(a, c, 1); b = assume_in(b, c, 0)
        r = ite(c, a.r, b.r); q = ite(c, a.c, b.c)
        t = {}
        for k, v in a.t.items(): _acc(t, k, v * c)
        nc = ONE - c
        for k, v in b.t.items(): _acc(t, k, v * nc)
        return M(r, q, t)
    raise TypeError('ite on %r / %r' % (type(a), type(b)))

def uf(name, *args, boolean=False, integer=False, lb=None):
    return S.of(atom('uf', (name,) + args, name=name + '(' + ','.join(show(a) for a in args)[:200] + ')',
                     boolean=boolean, integer=integer, lb=lb))

# ------------------------------------------------------------------ matrices
class MAtom:
    __slots__ = ('id', 'kind', 'args', 'name', 'r', 'c', 'sym', '_fa')
    def __repr__(self): return self.name
_matoms = {}
_mby_id = []
def matom(kind, args, r, c, name=None, sym=False):
    r = S.of(r); c = S.of(c)
    k = (kind, tuple(_argkey(a) for a in args), r.key(), c.key())
    x = _matoms.get(k)
    if x is None:
        x = MAtom(); x.id = len(_mby_id); x.kind = kind; x.args = tuple(args); x.r = r; x.c = c; x.sym = sym
        x._fa = None
        if name is None:
            name = kind + '(' + ','.join(show(a) for a in args) + ')'
            if len(name) > 200: name = name[:196] + '...)'
        x.name = name
        _matoms[k] = x; _mby_id.append(x)
    return x

_bv = []
def bv(i):
    while len(_bv) <= i:
        _bv.append(atom('bv', (len(_bv),), name='k%d' % len(_bv), integer=True))
    return _bv[i]

def fdim(f):
    A = _mby_id[f[0]]
    return (A.c, A.r) if f[1] else (A.r, A.c)

def fT(f):
    A = _mby_id[f[0]]
    if A.sym: return f
    return (f[0], not f[1])

def _acc(t, k, v):
    if not v.t: return
    o = t.get(k)
    if o is None: t[k] = v
    else:
        n = o + v
        if n.t: t[k] = n
        else: del t[k]

class ShapeLog:
    def __init__(self): self.cb = None
SHAPES = ShapeLog()

def shape_req(a, b, what):
    if a == b: return
    if SHAPES.cb: SHAPES.cb(a, b, what)

class M:
    """rows r, cols c, terms {(binders, mono): coef}; binders = ((lo,hi),...) for bv(0),bv(1),..;
    mono = tuple of factors (matom id, transposed)"""
    __slots__ = ('r', 'c', 't', '_k', '_fa')
    def __init__(self, r, c, t): self.r = r; self.c = c; self.t = t; self._k = None; self._fa = None
    def key(self):
        if self._k is None:
            self._k = (self.r.key(), self.c.key(),
                       tuple(sorted(((tuple((lo.key(), hi.key()) for lo, hi in b), m), v.key())
                                    for (b, m), v in self.t.items())))
        return self._k
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, M) and self.key() == o.key()
    def same(self, o): return self is o or self.key() == o.key()
    @staticmethod
    def zero(r, c): return M(S.of(r), S.of(c), {})
    @staticmethod
    def identity(n, m=None):
        n = S.of(n); m = n if m is None else S.of(m)
        if n == m: return M(n, n, {((), ()): ONE})
        return M.of(matom('rectI', (), n, m))
    @staticmethod
    def of(a):
        return M(a.r, a.c, {((), ((a.id, False),)): ONE})
    @staticmethod
    def const(r, c, v):
        r = S.of(r); c = S.of(c); v = S.of(v)
        if v.is0() or r.is0() or c.is0(): return M.zero(r, c)
        mono = ()
        if not r.is1(): mono += ((ones(r).id, False),)
        if not c.is1(): mono += ((ones(c).id, True),)
        return M(r, c, {((), mono): v})
    @staticmethod
    def scalar(s): 
        s = S.of(s)
        return M(ONE, ONE, {((), ()): s} if s.t else {})
    @staticmethod
    def E(off, ln, tot):
        off = S.of(off); ln = S.of(ln); tot = S.of(tot)
        if ln == tot: return M.identity(tot)
        return M.of(Eatom(off, ln, tot))
    def is0(self): return not self.t
    def isvec(self): return self.c.is1()
    def scale(self, s):
        s = S.of(s)
        t = {}
        if s.t:
            for k, v in self.t.items():
                w = v * s
                if w.t: t[k] = w
        return M(self.r, self.c, t)
    def __neg__(self): return M(self.r, self.c, {k: -v for k, v in self.t.items()})
    def __add__(self, o):
        shape_req(self.r, o.r, 'rows of +'); shape_req(self.c, o.c, 'cols of +')
        t = dict(self.t)
        for k, v in o.t.items(): _acc(t, k, v)
        return M(self.r, self.c, t)
    def __sub__(self, o):
        shape_req(self.r, o.r, 'rows of -'); shape_req(self.c, o.c, 'cols of -')
        t = dict(self.t)
        for k, v in o.t.items(): _acc(t, k, -v)
        return M(self.r, self.c, t)
    @property
    def T(self):
        t = {}
        for (b, m), v in self.t.items():
            _acc(t, (b, tuple(fT(f) for f in reversed(m))), v)
        return M(self.c, self.r, t)
    def mul(self, o):
        shape_req(self.c, o.r, 'inner dimensions of *')
        if self.r.is1() and self.c.is1() and not o.r.is1(): return o.scale(self.elem(0, 0))
        t = {}
        for (b1, m1), v1 in self.t.items():
            for (b2, m2), v2 in o.t.items():
                if b1 and b2:
                    n = len(b1)
                    ren = {bv(i): S.of(bv(i + n)) for i in range(len(b2))}
                    tmp = _subst_term((b2, m2, v2), ren, keep=len(b2))
                    b2n, m2n, v2n = tmp
                else: b2n, m2n, v2n = b2, m2, v2
                _add_term(t, b1 + b2n, m1 + m2n, v1 * v2n, len(m1), self.r, o.c)
        return M(self.r, o.c, t)
    def __mul__(self, o):
        return self.mul(o) if isinstance(o, M) else self.scale(o)
    __rmul__ = scale
    def block(self, r0, c0, nr, nc):
        r0, c0, nr, nc = map(S.of, (r0, c0, nr, nc))
        m = self
        if not (r0.is0() and nr == self.r): m = M.E(r0, nr, self.r).T.mul(m)
        if not (c0.is0() and nc == self.c): m = m.mul(M.E(c0, nc, self.c))
        return M(nr, nc, m.t)
    def with_block(self, r0, c0, nr, nc, v):
        r0, c0, nr, nc = map(S.of, (r0, c0, nr, nc))
        if r0.is0() and c0.is0() and nr == self.r and nc == self.c: return M(self.r, self.c, v.t)
        L = M.E(r0, nr, self.r); R = M.E(c0, nc, self.c)
        old = self.block(r0, c0, nr, nc)
        rem = self - L.mul(old).mul(R.T)
        if not (nr.is1() and nc.is1()):
            # unspecified contents that are overwritten by now
            und = {k: x for k, x in rem.t.items() if any(_mby_id[f].kind == 'undef' for f, _ in k[1])}
            if und and M(self.r, self.c, und).zero_p(): rem = M(self.r, self.c, {k: x for k, x in rem.t.items() if k not in und})
        return rem + L.mul(M(nr, nc, dict(v.t))).mul(R.T)
    def elem(self, i, j=0):
        i = S.of(i); j = S.of(j)
        m = self
        if not self.r.is1(): m = M.E(i, 1, self.r).T.mul(m)
        if not self.c.is1(): m = m.mul(M.E(j, 1, self.c))
        return m.to_scalar()
    def to_scalar(self):
        s = ZERO
        for (b, m), v in self.t.items():
            x = v if not m else v * el(m)
            for d in reversed(range(len(b))):
                x = ssum(bv(d), b[d][0], b[d][1], x)
            s = s + x
        return s
    def zero_p(self):
        """zero, deciding by common partition of the index ranges"""
        if not self.t: return True
        if all(eq(v, 0) for v in self.t.values()): return True
        return _part_zero(self)
    def __str__(self):
        if not self.t: return '0'
        out = []
        for (b, m), v in self.t.items():
            f = '.'.join(_mby_id[a].name + ("'" if t else '') for a, t in m) or 'I'
            bs = ''.join('sum(k%d=%s..%s)' % (i, lo, hi) for i, (lo, hi) in enumerate(b))
            vs = '' if v.is1() else '(%s)*' % v
            out.append(bs + vs + f)
        return ' + '.join(out)
    __repr__ = __str__

def ones(n): return matom('ones', (), n, 1, name='1_%s' % n)
def Eatom(off, ln, tot): return matom('E', (off, ln), tot, ln, name='E[%s:%s/%s]' % (off, ln, tot))

def el(mono):
    """scalar atom of a 1x1 product"""
    tr = tuple(fT(f) for f in reversed(mono))
    m = min(mono, tr)
    return S.of(atom('el', tuple(('f', _mby_id[a], t) for a, t in m), name='<' + '.'.join(
        _mby_id[a].name + ("'" if t else '') for a, t in m) + '>'))

def _add_term(t, b, m, v, at, r, c):
    """reduce the product (junction at index `at`), then accumulate"""
    for (b2, m2, v2) in _reduce(b, m, v, at):
        if not v2.t: continue
        _acc(t, (b2, m2), v2)

def _reduce(b, m, v, at):
    """list of reduced (binders, mono, coef)"""
    i = at - 1
    m = list(m)
    while True:
        if i < 0 or i + 1 >= len(m): break
        res = _pair(m[i], m[i + 1])
        if res is None:
            break
        kind = res[0]
        if kind == 'zero': return []
        if kind == 'mono':
            new = res[1]
            m[i:i + 2] = list(new)
            # the junction moved: re-examine around i
            if len(new) == 0:
                i -= 1; continue
            # one factor: try with left neighbour first, then right
            j = i
            if j - 1 >= 0 and _pair(m[j - 1], m[j]) is not None: i = j - 1; continue
            i = j; continue
        if kind == 'scal':
            v = v * res[1]; m[i:i + 2] = []; i -= 1; continue
        if kind == 'delta':
            # E_r' E_s with both of length one: [r == s]
            d = res[1]
            m[i:i + 2] = []
            sol = _solve(b, d)
            if sol is not None:
                k, val = sol
                lo, hi = b[k]
                g = b_not(lt0(val - lo)) * lt0(val - hi)
                b, m2, v = _subst_binder(b, tuple(m), v * g, k, val)
                if not v.t: return []
                # the substitution may have enabled more reductions: renormalise everything
                return _renorm(b, m2, v)
            v = v * eq0(d)
            if not v.t: return []
            i -= 1
            continue
    m = tuple(m)
    # extract inner 1x1 factors
    m, v = _extract(m, v)
    return [_drop_unused(b, m, v)]

def _renorm(b, m, v):
    out = [(b, (), v)]
    for f in m:
        nxt = []
        for bb, mm, vv in out:
            if not mm: nxt.append((bb, (f,), vv))
            else: nxt += _reduce(bb, mm + (f,), vv, len(mm))
        # later factors still refer to the binders of the original numbering; _reduce may have
        # eliminated one, in which case renumbering was applied to the processed prefix only.
        if any(len(bb) != len(b) for bb, mm, vv in nxt):
            return _renorm_slow(b, m, v)
        out = nxt
    return [x for x in out if x[2].t]

def _renorm_slow(b, m, v):
    # find the first reducible junction and reduce the complete product there
    for i in range(1, len(m)):
        if _pair(m[i - 1], m[i]) is not None:
            return _reduce(b, m, v, i)
    m, v = _extract(m, v)
    return [_drop_unused(b, m, v)]

def _extract(m, v):
    if len(m) < 2: return m, v
    one = [k for k in range(len(m) + 1) if
           (fdim(m[k])[0] if k < len(m) else fdim(m[k - 1])[1]).is1()]
    if len(one) >= 2:
        p, q = one[0], one[-1]
        if q - p >= 1 and not (p == 0 and q == len(m)):
            sub = m[p:q]
            if not (len(sub) == 1 and _mby_id[sub[0][0]].kind in ('x')):
                # keep bound variables out of extracted scalars only when they are closed terms
                v = v * el(sub)
                m = m[:p] + m[q:]
    return m, v

def _solve(b, d):
    """a binder k and a value such that d == 0 iff bv(k) == value, when d is affine in it (coef +-1)
    and the value does not contain binder k"""
    for k in reversed(range(len(b))):
        a = bv(k)
        mono = ((a.id, 1),)
        c = d.t.get(mono)
        if c is None or abs(c) != 1: continue
        rest = d - S({mono: c})
        if _mentions(rest, a): continue
        # inner binders whose range depends on k are fine: they are substituted
        val = rest * (-1 / c)
        if any(_mentions(val, bv(j)) for j in range(k + 1, len(b))): continue
        return k, val
    return None

def _mentions(x, a):
    return a in free_atoms(x)

def free_atoms(x):
    """all atoms (recursively) of S, M, Atom, MAtom"""
    if isinstance(x, S):
        r = x._fa
        if r is not None: return r
        r = set()
        for m in x.t:
            for a, e in m: r |= free_atoms(_by_id[a])
        r = x._fa = frozenset(r)
        return r
    if isinstance(x, Atom):
        if x._fa is None:
            r = frozenset([x])
            for a in x.args: r = r | free_atoms(a)
            x._fa = r
        return x._fa
    if isinstance(x, MAtom):
        if x._fa is None:
            r = free_atoms(x.r) | free_atoms(x.c)
            for a in x.args: r = r | free_atoms(a)
            x._fa = r | frozenset([x])
        return x._fa
    if isinstance(x, M):
        r = x._fa
        if r is not None: return r
        r = set(free_atoms(x.r) | free_atoms(x.c))
        for (b, m), v in x.t.items():
            r |= free_atoms(v)
            for lo, hi in b: r |= free_atoms(lo); r |= free_atoms(hi)
            for a, t in m: r |= free_atoms(_mby_id[a])
        r = x._fa = frozenset(r)
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for y in x: r = r | free_atoms(y)
        return r
    return frozenset()

def _subst_binder(b, m, v, k, val):
    """bv(k) := val, binder k removed, higher binders renumbered"""
    ren = {bv(k): val}
    for j in range(k + 1, len(b)): ren[bv(j)] = S.of(bv(j - 1))
    nb = tuple((subst(lo, ren), subst(hi, ren)) for i, (lo, hi) in enumerate(b) if i != k)
    nm = tuple((subst_matom(_mby_id[a], ren).id, t) for a, t in m)
    return nb, nm, subst(v, ren)

def _subst_term(term, ren, keep):
    b, m, v = term
    nb = tuple((subst(lo, ren), subst(hi, ren)) for lo, hi in b)
    nm = tuple((subst_matom(_mby_id[a], ren).id, t) for a, t in m)
    return nb, nm, subst(v, ren)

def _drop_unused(b, m, v):
    """binders that occur nowhere, or only in the coefficient"""
    if not b: return b, m, v
    for k in reversed(range(len(b))):
        a = bv(k)
        used = any(a in free_atoms(_mby_id[x]) for x, t in m) or any(
            a in free_atoms(lo) or a in free_atoms(hi) for i, (lo, hi) in enumerate(b) if i != k)
        if used: continue
        lo, hi = b[k]
        v = ssum(a, lo, hi, v)
        b, m, v = _subst_binder(b, m, v, k, ZERO)
    return b, m, v

def _pair(f, g):
    """reduction of adjacent factors, or None"""
    A = _mby_id[f[0]]; B = _mby_id[g[0]]
    ka, kb = A.kind, B.kind
    if ka == 'E' and kb == 'E':
        ta, tb = f[1], g[1]
        if ta and not tb:      # E' E
            o1, l1 = A.args; o2, l2 = B.args
            if o1 == o2 and l1 == l2: return ('mono', ())
            if l1.is1() and l2.is1():
                d = o1 - o2
                s = sign(d)
                if s == '0': return ('mono', ())
                if s in ('+', '-'): return ('zero',)
                return ('delta', d)
            if ge0(o2 - o1 - l1) or ge0(o1 - o2 - l2): return ('zero',)
            # containment
            if ge0(o2 - o1) and ge0(o1 + l1 - o2 - l2): return ('mono', _Ef(o2 - o1, l2, l1, False))
            if ge0(o1 - o2) and ge0(o2 + l2 - o1 - l1): return ('mono', _Ef(o1 - o2, l1, l2, True))
            return None
        if not ta and not tb:  # E E
            o1, l1 = A.args; o2, l2 = B.args
            return ('mono', _Ef(o1 + o2, l2, A.r, False))
        if ta and tb:          # E1' E2' = (E2 E1)'
            o1, l1 = A.args; o2, l2 = B.args
            return ('mono', _Ef(o2 + o1, l1, B.r, True))
        return None
    if ka == 'E' and f[1] and kb == 'ones' and not g[1]:
        return ('mono', () if A.c.is1() else ((ones(A.c).id, False),))
    if ka == 'ones' and f[1] and kb == 'E' and not g[1]:
        return ('mono', () if B.c.is1() else ((ones(B.c).id, True),))
    if ka == 'ones' and kb == 'ones' and f[1] and not g[1]:
        return ('scal', A.r)
    if ka == 'inv' and not (A.args[0].t is None):
        x = _single(A.args[0])
        if x is not None:
            y = x if not f[1] else fT(x)
            if y == g: return ('mono', ())
    if kb == 'inv':
        x = _single(B.args[0])
        if x is not None:
            y = x if not g[1] else fT(x)
            if y == f: return ('mono', ())
    return None

def _Ef(o, l, tot, t):
    if l == tot: return ()
    return ((Eatom(o, l, tot).id, t),)

def _single(m):
    if len(m.t) == 1:
        ((b, mono), v), = m.t.items()
        if not b and len(mono) == 1 and v.is1(): return mono[0]
    return None

def inverse(m):
    x = _single(m)
    if x is not None:
        A = _mby_id[x[0]]
        if A.kind == 'inv': return A.args[0].T if x[1] else A.args[0]
        if x[1]: return inverse(m.T).T
    if len(m.t) == 1:
        ((b, mono), v), = m.t.items()
        if not b and not mono: return M(m.r, m.c, {((), ()): v.recip()})
    return M.of(matom('inv', (m,), m.c, m.r, name='inv(%s)' % str(m)[:120]))

def ufm(name, r, c, *args):
    return M.of(matom('uf', (name,) + args, r, c, name=name + '(' + ','.join(show(a) for a in args)[:160] + ')'))

# ------------------------------------------------------------------ sums
def ssum(a, lo, hi, x):
    """sum of x over a = lo..hi-1"""
    x = S.of(x); lo = S.of(lo); hi = S.of(hi)
    if not x.t: return ZERO
    n = hi - lo
    c = n.const()
    if c is not None and c <= 0: return ZERO
    if c is not None and c <= 4 and c.denominator == 1:
        r = ZERO
        for i in range(int(c)): r = r + subst(x, {a: lo + i})
        return r
    out = ZERO
    for m, co in x.t.items():
        dep = []; free = []
        for at, e in m:
            (dep if a in free_atoms(_by_id[at]) else free).append((at, e))
        base = S({tuple(free): co})
        if not dep: out = out + base * n; continue
        if len(dep) == 1 and dep[0][0] == a.id and dep[0][1] in (1, 2, 3):
            e = dep[0][1]
            def F(t):
                if e == 1: return t * (t - 1) * Fr(1, 2)
                if e == 2: return (t - 1) * t * (2 * t - 1) * Fr(1, 6)
                return (t * (t - 1) * Fr(1, 2)) ** 2
            out = out + base * (F(hi) - F(lo)); continue
        d = S({tuple(dep): Fr(1)})
        # a single indicator that pins the variable
        pinned = None
        for at, e in dep:
            A = _by_id[at]
            if A.kind == 'eq0':
                p = A.args[0]
                k = p.t.get(((a.id, 1),))
                if k is not None and abs(k) == 1:
                    rest = p - S({((a.id, 1),): k})
                    if a not in free_atoms(rest):
                        pinned = (at, rest * (-1 / k)); break
        if pinned:
            val = pinned[1]
            d2 = S({tuple(x for x in dep if x[0] != pinned[0]): Fr(1)})
            out = out + base * subst(d2, {a: val}) * b_not(lt0(val - lo)) * lt0(val - hi); continue
        w = atom('w', (), name='w', integer=True)
        d = subst(d, {a: S.of(w)})
        out = out + base * S.of(atom('sum', (lo, hi, d), name='sum(w=%s..%s)[%s]' % (lo, hi, d)))
    return out

def _pin_of(mono, a):
    """(atom id of an eq0 factor, value) that pins atom a"""
    for at, e in mono:
        A = _by_id[at]
        if A.kind == 'eq0':
            p = A.args[0]
            k = p.t.get(((a.id, 1),))
            if k is not None and abs(k) == 1:
                rest = p - S({((a.id, 1),): k})
                if a not in free_atoms(rest): return at, rest * (-1 / k)
    return None

def msum(a, lo, hi, x):
    """matrix sum of x over atom a = lo..hi-1"""
    out = {}
    lo = S.of(lo); hi = S.of(hi)
    n = hi - lo
    if n.const() is not None and n.const() <= 0: return M(x.r, x.c, {})
    pinned, items = [], []
    for (b, m), v in x.t.items():
        keep = {}
        for mono, co in v.t.items():
            pin = _pin_of(mono, a)
            if pin is None: keep[mono] = co
            else: pinned.append((b, m, S({tuple(y for y in mono if y[0] != pin[0]): co}), pin[1]))
        if keep: items.append(((b, m), S(keep)))
    extra = None
    for b, m, v, val in pinned:
        v = v * b_not(lt0(val - lo)) * lt0(val - hi)
        t1 = subst(M(x.r, x.c, {(b, m): v}), {a: val})
        extra = t1 if extra is None else M(x.r, x.c, _merge(extra.t, t1.t))
    if extra is not None: out = dict(extra.t)
    for (b, m), v in items:
        dep = a in free_atoms(v) or any(a in free_atoms(_mby_id[f]) for f, t in m) or any(
            a in free_atoms(l) or a in free_atoms(h) for l, h in b)
        if not dep: _acc(out, (b, m), v * n); continue
        ren = {bv(i): S.of(bv(i + 1)) for i in range(len(b))}
        ren[a] = S.of(bv(0))
        nb, nm, nv = _subst_term((b, m, v), ren, 0)
        nb = ((S.of(lo), S.of(hi)),) + nb
        nb, nm, nv = _drop_unused(nb, nm, nv)
        if nv.t: _acc(out, (nb, nm), nv)
    return M(x.r, x.c, out)

def elementwise(f, *ms):
    """matrix of f applied to the corresponding entries"""
    r, c = ms[0].r, ms[0].c
    i = atom('lw', ('ew', 0), name='i', integer=True, lb=0); j = atom('lw', ('ew', 1), name='j', integer=True, lb=0)
    n0 = len(FACTS.l); FACTS.push(r - 1 - S.of(i)); FACTS.push(c - 1 - S.of(j))
    v = f(*[m.elem(S.of(i), S.of(j)) for m in ms])
    x = M.E(S.of(i), ONE, r).mul(M.scalar(v)).mul(M.E(S.of(j), ONE, c).T)
    FACTS.release(n0)
    return msum(i, ZERO, r, msum(j, ZERO, c, x))

def sqrt(x):
    x = S.of(x); c = x.const()
    if c is not None and c >= 0:
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator: return S.of(Fr(a, b))
    return uf('sqrt', x, lb=0)

def diagv(m):
    """the diagonal of a square matrix, as a column"""
    if all(not b and not mono for b, mono in m.t): return M.const(m.r, 1, sum(m.t.values(), ZERO))
    i = atom('lw', ('ew', 2), name='i', integer=True, lb=0); n0 = len(FACTS.l); FACTS.push(m.r - 1 - S.of(i))
    x = M.E(S.of(i), ONE, m.r).mul(M.scalar(m.elem(S.of(i), S.of(i))))
    FACTS.release(n0)
    return msum(i, ZERO, m.r, x)

def diagm(v):
    """the diagonal matrix with the entries of a column (or row)"""
    if not v.c.is1(): v = v.T
    i = atom('lw', ('ew', 2), name='i', integer=True, lb=0); n0 = len(FACTS.l); FACTS.push(v.r - 1 - S.of(i))
    e = M.E(S.of(i), ONE, v.r)
    x = M(v.r, v.r, e.mul(M.scalar(v.elem(S.of(i), 0))).mul(e.T).t)
    FACTS.release(n0)
    return msum(i, ZERO, v.r, x)

# ------------------------------------------------------------------ substitution
class MP(dict):
    """substitution with a hash-consed identity, for memoisation"""
    __slots__ = ('k',)
    def __init__(self, d):
        super().__init__(d)
        self.k = tuple(sorted(((0 if isinstance(a, Atom) else 1, a.id), _argkey(v) if not isinstance(v, (int, Fr)) else v) for a, v in d.items()))
        self.k = _mpk.setdefault(self.k, len(_mpk))
_mpk = {}
_submemo = {}

def subst(x, mp):
    """mp: {Atom: S} and/or {MAtom: M}"""
    if not mp: return x
    if type(mp) is not MP: mp = MP(mp)
    if isinstance(x, S):
        if not x.t: return x
        fa = free_atoms(x)
        if not any(k in fa for k in mp): return x
        r = ZERO
        plain = {}
        for m, c in x.t.items():
            if not any(any(k in free_atoms(_by_id[a]) for k in mp) for a, e in m):
                plain[m] = plain.get(m, 0) + c
                continue
            t = S.of(c)
            for a, e in m:
                A = _by_id[a]
                v = subst_atom(A, mp)
                t = t * (v ** e if not (A.boolean and e == 1) else v)
                if not t.t: break
            r = r + t
        return r + S({k: v for k, v in plain.items() if v})
    if isinstance(x, M):
        fa = free_atoms(x)
        if not any(k in fa for k in mp): return x
        r = subst(x.r, mp); c = subst(x.c, mp)
        out = M(r, c, {})
        for (b, m), v in x.t.items():
            nb = tuple((subst(lo, mp), subst(hi, mp)) for lo, hi in b)
            nv = subst(v, mp)
            if not nv.t: continue
            cur = None
            changed = False
            parts = []
            for f, t in m:
                A = _mby_id[f]
                B = subst_mfactor(A, mp)
                if B is not None: changed = True
                parts.append((f, t, B))
            if not changed:
                mm = dict(out.t); _acc(mm, (nb, m), nv); out = M(r, c, mm); continue
            acc = None
            if nb:
                acc = _subst_bound(b, m, v, mp, r, c)
            else:
                for f, t, B in parts:
                    F = (B if B is not None else M.of(_mby_id[f]))
                    F = F.T if t else F
                    acc = F if acc is None else acc.mul(F)
                acc = M(r, c, acc.t).scale(nv)
            out = M(r, c, _merge(out.t, acc.t))
        return out
    if isinstance(x, tuple): return tuple(subst(y, mp) for y in x)
    if isinstance(x, Atom):
        return subst_atom(x, mp)
    if isinstance(x, MAtom):
        return x
    return x

def _merge(a, b):
    t = dict(a)
    for k, v in b.items(): _acc(t, k, v)
    return t

_owdepth = [0]
def _ow(i): return atom('ow', (i,), name='o%d' % i, integer=True)

def _subst_bound(b, m, v, mp, r, c):
    """substitution below binders: open them, substitute, close them again"""
    n = len(b); d0 = _owdepth[0]; _owdepth[0] += n
    mk = FACTS.mark()
    try:
        ws = [_ow(d0 + i) for i in range(n)]
        ren = {bv(i): S.of(ws[i]) for i in range(n)}
        rng = [(subst(subst(lo, ren), mp), subst(subst(hi, ren), mp)) for lo, hi in b]
        for w, (lo, hi) in zip(ws, rng):
            FACTS.push(S.of(w) - lo); FACTS.push(hi - S.of(w) - 1)
        acc = None
        for f, t in m:
            A = subst_matom(_mby_id[f], ren)
            B = subst_mfactor(A, mp)
            F = B if B is not None else M.of(A)
            F = F.T if t else F
            acc = F if acc is None else acc.mul(F)
        acc = M(r, c, acc.t) if acc is not None else M(r, c, {((), ()): ONE})
        acc = acc.scale(subst(subst(v, ren), mp))
        for i in reversed(range(n)):
            acc = msum(ws[i], rng[i][0], rng[i][1], acc)
        return acc
    finally:
        FACTS.release(mk); _owdepth[0] = d0

def _inst(tpl, args, mp):
    """template with placeholders applied to index arguments"""
    args = [subst(a, mp) for a in args]
    if not args: return tpl
    return subst(tpl, {atom('ph', (i,)): a for i, a in enumerate(args)})

def subst_atom(A, mp):
    if A in mp: return S.of(mp[A])
    if not A.args: return S.of(A)
    fa = free_atoms(A)
    if not any(k in fa for k in mp): return S.of(A)
    if type(mp) is not MP: mp = MP(mp)
    k = (0, A.id, mp.k, FACTS.sid)
    r = _submemo.get(k)
    if r is None:
        if len(_submemo) > 400000: _submemo.clear()
        r = _submemo[k] = subst_atom_(A, mp)
    return r

def subst_atom_(A, mp):
    k = A.kind
    if k in ('lh', 'fh') and A.args[0] in mp: return _inst(mp[A.args[0]], A.args[1:], mp)
    if k == 'poly': return subst(A.args[0], mp)
    if k == 'lt0': return lt0(subst(A.args[0], mp))
    if k == 'eq0': return eq0(subst(A.args[0], mp))
    if k == 'el':
        acc = None
        for (_, MA, t) in A.args:
            B = subst_mfactor(MA, mp)
            F = B if B is not None else M.of(MA)
            F = F.T if t else F
            acc = F if acc is None else acc.mul(F)
        return acc.to_scalar()
    if k == 'sum':
        lo, hi, d = A.args
        w = fresh('w', integer=True)
        d2 = subst(subst(d, {atom('w', (), name='w', integer=True): S.of(w)}), mp)
        return ssum(w, subst(lo, mp), subst(hi, mp), d2)
    if k in REBUILD: return REBUILD[k](*[subst(a, mp) for a in A.args])
    na = tuple(_subst_arg(a, mp) for a in A.args)
    return S.of(atom(k, na, boolean=A.boolean, lb=A.lb, integer=A.integer,
                     name=(A.args[0] + '(' + ','.join(show(a) for a in na[1:])[:200] + ')') if k == 'uf' else None))

REBUILD = {}

def _subst_arg(a, mp):
    if isinstance(a, (S, M)): return subst(a, mp)
    if isinstance(a, tuple): return tuple(_subst_arg(y, mp) for y in a)
    if isinstance(a, Atom):
        r = mp.get(a)
        return a if r is None else r
    if isinstance(a, MAtom):
        B = subst_mfactor(a, mp)
        return a if B is None else B
    return a

def subst_mfactor(A, mp):
    """replacement matrix for atom A, or None when unchanged"""
    if A in mp: return mp[A]
    fa = free_atoms(A)
    if not any(k in fa for k in mp): return None
    if type(mp) is not MP: mp = MP(mp)
    k = (1, A.id, mp.k, FACTS.sid)
    r = _submemo.get(k)
    if r is None: r = _submemo[k] = subst_mfactor_(A, mp)
    return r

def subst_mfactor_(A, mp):
    if A.kind in ('lh', 'fh') and A.args[0] in mp: return _inst(mp[A.args[0]], A.args[1:], mp)
    if A.kind == 'E':
        return M.E(subst(A.args[0], mp), subst(A.args[1], mp), subst(A.r, mp))
    if A.kind == 'ones': return M.const(subst(A.r, mp), 1, 1)
    if A.kind == 'inv': return inverse(subst(A.args[0], mp))
    if A.kind == 'rectI': return M.identity(subst(A.r, mp), subst(A.c, mp))
    if A.kind in MREBUILD:
        return MREBUILD[A.kind](subst(A.r, mp), subst(A.c, mp), *[_subst_arg(a, mp) for a in A.args])
    na = tuple(_subst_arg(a, mp) for a in A.args)
    return M.of(matom(A.kind, na, subst(A.r, mp), subst(A.c, mp),
                      name=(A.args[0] + '(' + ','.join(show(a) for a in na[1:])[:160] + ')') if A.kind == 'uf' else A.name if A.kind == 'sym' else None,
                      sym=A.sym))
MREBUILD = {'abbr': lambda r, c, x: abbr(x)}

def abbr(x, big=8):
    """hash-consed abbreviation of a large matrix value"""
    if len(x.t) <= big: return x
    return M.of(matom('abbr', (x,), x.r, x.c, name='{matrix of %d terms}' % len(x.t)))

def unfold_lh_free(b):
    """abbreviate a large loop-invariant matrix before reading single elements of it"""
    if any(a.kind in ('lh', 'lhb') for a in free_atoms(b)): return b
    return abbr(b)

def unfold(x):
    """expand the abbreviations of x"""
    for _ in range(6):
        mp = {a: a.args[0] for a in free_atoms(x) if isinstance(a, MAtom) and a.kind == 'abbr'}
        if not mp: return x
        x = subst(x, mp)
    return x

def subst_matom(A, mp):
    B = subst_mfactor(A, mp)
    if B is None: return A
    s = _single(B)
    if s is None or s[1]: raise NotImplementedError('atom substitution is not atomic: %s' % A.name)
    return _mby_id[s[0]]

# ------------------------------------------------------------------ comparison by partition
def _breaks(m, side):
    """offsets (start,end) of the outermost E factors on one side"""
    pts = []
    for (b, mono), v in m.t.items():
        if not mono: continue
        f = mono[0] if side == 0 else mono[-1]
        A = _mby_id[f[0]]
        if A.kind == 'E' and (f[1] is (side == 1)):
            o, l = A.args
            if any(_mentions(o, bv(i)) for i in range(len(b))): continue
            pts += [o, o + l]
    return pts

def _order(pts, tot):
    pts = [ZERO] + pts + [tot]
    uniq = []
    for p in pts:
        if not any(eq(p, q) for q in uniq): uniq.append(p)
    import functools
    class Und(Exception): pass
    def c(a, b):
        d = a - b
        s = sign(d)
        if s == '0': return 0
        if s in ('+', '>=0'): return 1
        if s in ('-', '<=0'): return -1
        raise Und
    try: return sorted(uniq, key=functools.cmp_to_key(c))
    except Und: return None

def blocks(m):
    """the non-zero blocks of m over its common partition: list of (r0,nr,c0,nc,block) or None"""
    rp = _order(_breaks(m, 0), m.r); cp = _order(_breaks(m, 1), m.c)
    if rp is None or cp is None: return None
    out = []
    for i in range(len(rp) - 1):
        for j in range(len(cp) - 1):
            bl = m.block(rp[i], cp[j], rp[i + 1] - rp[i], cp[j + 1] - cp[j])
            out.append((rp[i], rp[i + 1] - rp[i], cp[j], cp[j + 1] - cp[j], bl))
    return out

def _part_zero(m):
    bl = blocks(m)
    if bl is None: return False
    if len(bl) == 1:
        return all(eq(v, 0) for v in bl[0][4].t.values()) or _pointwise(bl[0][4])
    for r0, nr, c0, nc, x in bl:
        if not x.t or all(eq(v, 0) for v in x.t.values()): continue
        if not _part_zero2(x): return False
    return True

def _part_zero2(x):
    if len(_breaks(x, 0)) or len(_breaks(x, 1)):
        bl = blocks(x)
        if bl is None or len(bl) == 1: return _pointwise(x)
        return all(_part_zero2(y) if y.t else True for *_, y in bl)
    return _pointwise(x)

def _pointwise(x):
    """when binders are present: compare a generic element"""
    if not any(b for (b, m) in x.t): return False
    i = fresh('row', integer=True, lb=0); j = fresh('col', integer=True, lb=0)
    mk = FACTS.mark()
    FACTS.push(x.r - S.of(i) - 1); FACTS.push(x.c - S.of(j) - 1)
    try:
        e = x.elem(ZERO if x.r.is1() else S.of(i), ZERO if x.c.is1() else S.of(j))
        return zero_cases(e)
    finally:
        FACTS.release(mk)

class _Budget(Exception): pass
_zc = [None]
_zcmemo = {}
def zero_cases(e, depth=8):
    """e == 0, splitting on indicator atoms whose combinations may be inconsistent.  A nonzero value of
    the polynomial identity test refutes at once; the number of cases is bounded (False = not shown)"""
    if _zc[0] is not None: return _zero_cases(e, depth)
    if e.is0(): return True
    k = (FACTS.sid, e)
    r = _zcmemo.get(k)
    if r is None:
        from . import rint
        if rint.refuted(e, FACTS.l): r = False
        else:
            _zc[0] = 80
            try: r = _zero_cases(e, depth)
            except _Budget: r = False
            finally: _zc[0] = None
        _zcmemo[k] = r
    return r

def _zero_cases(e, depth):
    _zc[0] -= 1
    if _zc[0] < 0: raise _Budget()
    e = num(e)
    if e.is0(): return True
    bs = sorted([a for a in e.atoms() if a.boolean and a.kind in ('lt0', 'eq0')], key=lambda a: a.id)
    if not bs or depth == 0: return False
    a = bs[0]
    for val in (1, 0):
        mk = FACTS.mark()
        try:
            sub = {a: S.of(val)}
            p = a.args[0]
            x = e
            if a.kind == 'lt0':
                f = (-p - 1 if all_int(p) else -p) if val else p
                if gt0(-f): continue
                FACTS.push(f)
                x = resimp(subst(x, sub))
            elif val:
                x = subst(x, sub)
                s = _elim(p)
                if s is not None:
                    mp = {s[0]: s[1]}
                    fs = [subst(f, mp) for f in FACTS.l]
                    if any(gt0(-f) for f in fs): continue
                    x = resimp(subst(x, mp))
            else:
                x = subst(x, sub)
                if sign(p) == '0': continue
                if all_int(p):
                    if ge0(p): FACTS.push(p - 1)
                    elif ge0(-p): FACTS.push(-p - 1)
                x = resimp(x)
            if _inconsistent(mk): continue
            if not _zero_cases(x, depth - 1): return False
        finally:
            FACTS.release(mk)
    return True

def _gt0_basic(s):
    return _ge0_basic(s - 1) if all_int(s) else (() in s.t and s.t[()] > 0 and _ge0_basic(s - s.t[()]))

def _inconsistent(start=0):
    """a recently assumed fact contradicts another one"""
    n = len(FACTS.l)
    for i in range(start, n):
        f = FACTS.l[i]
        if gt0(-f): return True
        for j in range(i):
            g = FACTS.l[j]
            if any(m in g.t for m in f.t if m) and _gt0_basic(-(f + g)): return True
    return False

def _elim(p):
    """solve p == 0 for an atom that occurs linearly with unit coefficient"""
    for m, c in sorted(p.t.items(), reverse=True):
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and _by_id[m[0][0]].kind in ('fresh', 'sym'):
            a = _by_id[m[0][0]]
            rest = p - S({m: c})
            if a not in free_atoms(rest): return a, rest * (-1 / c)
    return None

def resimp(x):
    """re-decide indicator atoms under the current facts"""
    mp = {}
    for a in x.atoms():
        if a.kind == 'lt0':
            v = lt0(a.args[0])
            if v.const() is not None: mp[a] = v
        elif a.kind == 'eq0':
            v = eq0(a.args[0])
            if v.const() is not None: mp[a] = v
    return subst(x, mp)

def _refine(m):
    """insert the partition of the identity I = sum_i E_i E_i' at every inner junction whose dimension is
    partitioned by selector matrices elsewhere in m; None when nothing changes"""
    pts = {}
    for (b, mono), v in m.t.items():
        for x, t in mono:
            A = _mby_id[x]
            if A.kind == 'E':
                o, l = A.args
                if any(_mentions(o, bv(i)) or _mentions(l, bv(i)) for i in range(len(b))): continue
                pts.setdefault(A.r, []).extend((o, o + l))
    cuts = {}
    for tot, ps in pts.items():
        q = _order(ps, tot)
        if q is not None and 2 < len(q) < 12: cuts[tot] = q
    if not cuts: return None
    out = M.zero(m.r, m.c); did = False
    for (b, mono), v in m.t.items():
        if b or len(mono) < 2: out = out + M(m.r, m.c, {(b, mono): v}); continue
        acc = _fm(mono[0])
        for f in mono[1:]:
            nxt = _fm(f); d = acc.c
            if d in cuts and not _isE(f) and not acc_endsE(acc):
                q = cuts[d]; did = True; tmp = M.zero(acc.r, nxt.c)
                for i in range(len(q) - 1):
                    e = M.E(q[i], q[i + 1] - q[i], d)
                    tmp = tmp + acc.mul(e).mul(e.T.mul(nxt))
                acc = tmp
            else: acc = acc.mul(nxt)
        out = out + M(m.r, m.c, acc.scale(v).t)
    return out if did else None

def _fm(f):
    A = _mby_id[f[0]]
    return M(A.c, A.r, {((), (f,)): ONE}) if f[1] else M(A.r, A.c, {((), (f,)): ONE})
def _isE(f): return _mby_id[f[0]].kind == 'E'
def acc_endsE(m): return all(k[1] and _isE(k[1][-1]) for k in m.t)

def _unsum(m):
    """sums of scaled unit columns as products: sum_k E[k+a:1] <E[k+c:1]' x> = E[a:n] E[c:n]' x"""
    out = M.zero(m.r, m.c); did = False
    def lin(o):
        k = ((bv(0).id, 1),)
        if o.t.get(k) != 1: return None
        r = o - S({k: Fr(1)})
        return None if _mentions(r, bv(0)) else r
    for (b, mono), v in m.t.items():
        a = None
        if len(b) == 1 and len(mono) == 1 and not mono[0][1] and m.c.is1() and _isE(mono[0]):
            A = _mby_id[mono[0][0]]
            if A.args[1].is1(): a = lin(A.args[0])
        if a is None: out = out + M(m.r, m.c, {(b, mono): v}); continue
        lo, hi = b[0]; n = hi - lo; E = M.E(lo + a, n, m.r); keep = {}
        for sm, co in v.t.items():
            dep = [(at, e) for at, e in sm if bv(0) in free_atoms(_by_id[at])]
            free = S({tuple(x for x in sm if x not in dep): co})
            col = None
            if not dep: col = M.const(n, 1, 1)
            elif len(dep) == 1 and dep[0][1] == 1 and _by_id[dep[0][0]].kind == 'el':
                fs = tuple((x[1].id, x[2]) for x in _by_id[dep[0][0]].args)
                for g in (fs, tuple(fT(f) for f in reversed(fs))):
                    if not (_isE(g[0]) and g[0][1]) or len(g) < 2: continue
                    B = _mby_id[g[0][0]]
                    c = lin(B.args[0]) if B.args[1].is1() else None
                    if c is None or any(bv(0) in free_atoms(_mby_id[f[0]]) for f in g[1:]): continue
                    col = M.E(lo + c, n, B.r).T
                    for f in g[1:]: col = col.mul(_fm(f))
                    break
            if col is None: keep[sm] = co; continue
            did = True; out = out + E.mul(col).scale(free)
        if keep: out = out + M(m.r, m.c, {(b, mono): S(keep)})
    return out if did else None

def meq(a, b):
    """matrix equality (shape equality required)"""
    if not (eq(a.r, b.r) and eq(a.c, b.c)): return False
    if a.same(b): return True
    old = SHAPES.cb; SHAPES.cb = None
    try:
        d = M(a.r, a.c, (a - b).t)
        u = _unsum(d)
        if u is not None and u.zero_p(): return True
        if d.zero_p(): return True
        d = _refine(d)
        return d is not None and d.zero_p()
    finally: SHAPES.cb = old

def veq(a, b):
    if isinstance(a, S) and isinstance(b, S):
        if eq(a, b): return True
        return zero_cases(unfold(a - b))
    if isinstance(a, M) and isinstance(b, M): return meq(a, b) or meq(unfold(a), unfold(b))
    return a == b
