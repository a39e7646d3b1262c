"""Abstract interpreter over the resolved trees of the front end.

One pass over each function body; the two arms of a branch are joined with indicator-guarded values (no
path is enumerated), counted loops are summarised in closed form (guess, then verified by induction) or,
when that fails, as a `fold` term that carries the loop's transfer function.  Calls into the repository are
inlined through the resolved callee; calls outside it are modelled one by one (Eigen, std, boost) and any
unmodelled one becomes an uninterpreted function of its arguments."""
import itertools, sys
from fractions import Fraction as Fr
from . import alg
from .alg import S, M, ZERO, ONE, atom, matom, FACTS, ite, subst, free_atoms
from .ir import AnalysisBroken
sys.setrecursionlimit(20000)

INT_T = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
         'unsigned char', 'long long', 'unsigned long long', 'enum'}
REAL_T = {'double', 'float', 'long double'}
VEC_T = {'std::vector', 'std::deque', 'boost::circular_buffer', 'boost::ptr_vector', 'std::array', 'std::list',
         'std::initializer_list'}
MATH1 = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'sqrt')
CMATH = dict([(x + 'f', x) for x in MATH1 + ('fabs', 'pow', 'floor', 'ceil', 'round', 'trunc', 'fmax', 'fmin', 'fmod')])
OWN_T = {'boost::scoped_ptr', 'std::unique_ptr', 'std::shared_ptr', 'boost::shared_ptr'}

def ph(i): return atom('ph', (i,), name='@%d' % i, integer=True, lb=0)

def is_int(t): return t['b'] in INT_T and not t.get('ptr')
def is_bool(t): return t['b'] in ('bool', '_Bool') and not t.get('ptr')
def is_real(t): return t['b'] in REAL_T and not t.get('ptr')
def is_scalar(t): return is_int(t) or is_bool(t) or is_real(t)
def is_eig(t): return t['b'] == 'Eigen'
def is_vec(t): return t['b'] in VEC_T
def is_ref(t): return bool(t.get('ref') or t.get('ptr'))
def strip_ref(t):
    if 'ref' in t or 'const' in t:
        t = {k: v for k, v in t.items() if k not in ('ref', 'const')}
    return t
def pointee(t): return {k: v for k, v in t.items() if k not in ('ref', 'ptr', 'const', 'pconst')}

class Unsupported(Exception): pass

# ------------------------------------------------------------------ lvalues
class LV: pass
class Loc(LV):
    __slots__ = ('path', 'idx', 't')
    def __init__(self, path, idx, t): self.path = path; self.idx = idx; self.t = t
    def same(self, o): return isinstance(o, Loc) and self.path == o.path and self.idx == o.idx
    def __repr__(self): return '.'.join(map(str, self.path)) + (str(list(self.idx)) if self.idx else '')
class View(LV):
    """block of a matrix lvalue (or of a matrix rvalue M)"""
    __slots__ = ('base', 'r0', 'c0', 'nr', 'nc')
    def __init__(self, base, r0, c0, nr, nc):
        self.base = base; self.r0 = S.of(r0); self.c0 = S.of(c0); self.nr = S.of(nr); self.nc = S.of(nc)
    def same(self, o): return isinstance(o, View) and same(self.base, o.base) and (self.r0, self.c0, self.nr, self.nc) == (o.r0, o.c0, o.nr, o.nc)
class Elem(LV):
    __slots__ = ('base', 'i', 'j')
    def __init__(self, base, i, j): self.base = base; self.i = S.of(i); self.j = S.of(j)
    def same(self, o): return isinstance(o, Elem) and same(self.base, o.base) and self.i == o.i and self.j == o.j
class TView(LV):
    __slots__ = ('base',)
    def __init__(self, base): self.base = base
    def same(self, o): return isinstance(o, TView) and same(self.base, o.base)
class Multi(LV):
    """guarded alternatives, folded as ite(g0, lv0, ite(g1, ...)); the last guard is ignored"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def same(self, o): return isinstance(o, Multi) and len(self.alts) == len(o.alts) and all(
        g == h and same(x, y) for (g, x), (h, y) in zip(self.alts, o.alts))
class Ptr:
    """pointer or reference value: guarded lvalues; None is null"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def same(self, o): return isinstance(o, Ptr) and len(self.alts) == len(o.alts) and all(
        g == h and same(x, y) for (g, x), (h, y) in zip(self.alts, o.alts))
class Comma:
    def __init__(self, lv): self.lv = lv; self.items = []
class Opq:
    """an unmodelled non-scalar value"""
    def __init__(self, s): self.s = s
    def same(self, o): return isinstance(o, Opq) and self.s == o.s
class Solver:  # FullPivLU etc.
    def __init__(self, m): self.m = m
class Iter:
    """position i in a container; rev: as reverse iterators count"""
    def __init__(self, lv, i, rev=False): self.lv = lv; self.i = S.of(i); self.rev = rev
    def same(self, o): return isinstance(o, Iter) and same(self.lv, o.lv) and self.i == o.i and self.rev == o.rev
class IterVar(LV):
    """a variable that holds an iterator: the container is fixed, the position is a location"""
    __slots__ = ('lv', 'idx', 'rev')
    def __init__(self, lv, idx, rev): self.lv = lv; self.idx = idx; self.rev = rev
    def same(self, o): return isinstance(o, IterVar) and same(self.lv, o.lv) and same(self.idx, o.idx)
class DView(LV):
    """diagonal of a matrix lvalue"""
    __slots__ = ('base',)
    def __init__(self, base): self.base = base
    def same(self, o): return isinstance(o, DView) and same(self.base, o.base)
class Closure:
    def __init__(self, node, env, this, file): self.node = node; self.env = env; self.this = this; self.file = file
class Inserter:
    def __init__(self, lv): self.lv = lv
class Axis:
    """rowwise() / colwise() of a matrix"""
    def __init__(self, m, rows): self.m = m; self.rows = rows
VALUES = (Solver, Iter, Closure, Inserter, Axis)

def same(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, S): return isinstance(b, S) and a == b
    if isinstance(a, M): return isinstance(b, M) and a.same(b)
    if hasattr(a, 'same'): return a.same(b)
    return False

def vite(c, a, b):
    if c.is1(): return a
    if c.is0(): return b
    if same(a, b): return a
    if isinstance(a, (S, M)) and isinstance(b, (S, M)):
        if isinstance(a, M) and isinstance(b, S): b = M.scalar(b)
        if isinstance(b, M) and isinstance(a, S): a = M.scalar(a)
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        alts = [(c * g, x) for g, x in a.alts] + [((ONE - c) * g, x) for g, x in b.alts]
        return Ptr(_dedupe(alts))
    if isinstance(a, (LV,)) and isinstance(b, LV):
        A = a.alts if isinstance(a, Multi) else [(ONE, a)]
        B = b.alts if isinstance(b, Multi) else [(ONE, b)]
        alts = [(c * g, x) for g, x in A] + [((ONE - c) * g, x) for g, x in B]
        alts = _dedupe(alts)
        return alts[0][1] if len(alts) == 1 else Multi(alts)
    if a is None: return b
    if b is None: return a
    if isinstance(a, Iter) and isinstance(b, Iter) and same(a.lv, b.lv) and a.rev == b.rev: return Iter(a.lv, ite(c, a.i, b.i), a.rev)
    if isinstance(a, VALUES) or isinstance(b, VALUES): raise Unsupported('alternatives of %r' % type(a))
    return Opq(alg.uf('opq-join', c, str(a), str(b)))

def _dedupe(alts):
    out = []
    for g, x in alts:
        if g.is0(): continue
        for k, (h, y) in enumerate(out):
            if (x is None and y is None) or (x is not None and y is not None and same(x, y)):
                out[k] = (h + g, y); break
        else: out.append((g, x))
    return out

# ------------------------------------------------------------------ states
class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem=None, pc=ONE): self.mem = {} if mem is None else mem; self.pc = pc
    def fork(self, g=ONE): return State(dict(self.mem), self.pc * g)

class Frame:
    _n = itertools.count(1)
    def __init__(self, f, this):
        self.id = next(Frame._n); self.f = f; self.this = this
        self.env = {}; self.rets = []; self.loops = []


class Oblig:
    __slots__ = ('kind', 'file', 'line', 'fn', 'cond', 'pc', 'text', 'ctx', 'facts')
    def __init__(self, **k):
        for a, b in k.items(): setattr(self, a, b)

class Interp:
    made = []                 # the interpreters of the running task
    def __init__(self, P, scalar='double'):
        self.P = P; self.scalar = scalar
        self.statics = {}         # initial values of mutable statics
        self.init_mode = {}       # root path component -> 'sym' | 'undef'
        self.types = {}           # leaf path -> type
        self.summ = {}            # callee id or qualified name -> handler
        self.events = []          # (kind, pc, data)
        self.obls = []            # obligations
        Interp.made.append(self)
        self.unknown = set()      # unmodelled callees met
        self.ctx = [ONE]          # path conditions of the callers
        self.stack = []
        self.line = 0
        self.calls = 0
        self.track_reads = None
        self.loopinfo = {'closed': 0, 'fold': 0}
        self.loopdepth = 0
        self.tmp = itertools.count(1)
        self._leaves = {}
        self.funcs_seen = set()
        self.init_cb = None

    # ---------------------------------------------------------------- leaves
    def rec(self, t):
        r = self.P.rec.get(t['b'])
        return r

    def fields(self, name):
        r = self.P.rec.get(name)
        if r is None: return None
        out = []
        for b in r['bases']:
            bf = self.fields(b['b'])
            if bf: out += bf
        return out + [(f['n'], f['t']) for f in r['fields']]

    def leaves(self, t):
        """[(subpath, type, extra depth)] of a type"""
        key = (t['b'], str(t.get('a')), is_ref(t), t.get('r'), t.get('c'), t.get('n'))
        if key in self._leaves: return self._leaves[key]
        if is_ref(t) or is_scalar(t) or is_eig(t): out = [((), t, 0)]
        elif is_vec(t):
            out = [(('#len',), dict({'b': 'int', 'lb0': 1}, **({'n': t['n']} if 'n' in t else {})), 0)]
            if t['b'] == 'boost::circular_buffer': out.append((('#cap',), {'b': 'int', 'lb0': 1}, 0))
            et = t['a'][0] if t.get('a') else {'b': '?'}
            for p, lt, d in self.leaves(et): out.append((('[]',) + p, lt, d + 1))
        elif t['b'] in OWN_T:
            out = [(('*',) + p, lt, d) for p, lt, d in self.leaves(t['a'][0])]
        elif t['b'] == 'std::pair':
            out = [((n,) + p, lt, d) for n, a in zip(('first', 'second'), t['a']) for p, lt, d in self.leaves(strip_ref(a))]
        else:
            if t['b'].split('<')[0].endswith('QPSolver'):
                out = [(('#nv',), {'b': 'int'}, 0), (('#nc',), {'b': 'int'}, 0), (('#hot',), {'b': 'bool'}, 0),
                       (('#Q',), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': -1}, 0),
                       (('#A',), {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': -1}, 0)]
            else:
                fs = self.fields(t['b'])
                if fs is None: out = [((), {'b': 'opaque', 'n': t['b']}, 0)]
                else:
                    out = []
                    for n, ft in fs:
                        for p, lt, d in self.leaves(ft): out.append(((n,) + p, lt, d))
        self._leaves[key] = out
        return out

    def init_value(self, path, t):
        """initial symbolic value of a leaf (an expression in the placeholders of its '[]' components)"""
        d = sum(1 for c in path if c == '[]')
        root = path[0]
        if self.init_cb:
            v = self.init_cb(path, t)
            if v is not None: return v
        if root == 'SL' and path in self.statics: return self.statics[path]
        mode = self.init_mode.get(root, 'undef')
        name = '.'.join(str(c) for c in path)
        args = (name,) + tuple(S.of(ph(i)) for i in range(d))
        if is_ref(t):
            return Ptr([(ONE, Loc(('ext',) + path, (), pointee(t)))]) if mode == 'sym' else Ptr([(ONE, None)])
        if path[-1] in ('#len', '#cap'):
            if 'n' in t: return S.of(t['n'])
            if mode == 'undef': return ZERO
            return S.of(atom(mode, args, name=name, integer=True, lb=0))
        if is_scalar(t):
            return S.of(atom(mode, args, name=name if mode == 'sym' else '?' + name,
                             integer=is_int(t) or is_bool(t), boolean=is_bool(t), lb=0 if is_bool(t) else None))
        if is_eig(t):
            r, c = t.get('r', -1), t.get('c', -1)
            def dim(k, v):
                if v is not None and v >= 0: return S.of(v)
                if mode == 'undef': return ZERO
                return S.of(atom(mode, (name + '#' + k,) + args[1:], name=name + '#' + k, integer=True, lb=0))
            R, C = dim('rows', r), dim('cols', c)
            return M.of(matom(mode, args, R, C, name=name if mode == 'sym' else '?' + name))
        return Opq(S.of(atom(mode, args, name=name)))

    def raw(self, st, path, t):
        self.types[path] = t
        v = st.mem.get(path)
        if v is None:
            v = self.init_value(path, t)
            st.mem[path] = v
        return v

    def read(self, st, loc):
        v = self.raw(st, loc.path, loc.t)
        if loc.idx:
            v = self.vsubst(v, {ph(i): x for i, x in enumerate(loc.idx)})
        return v

    def vsubst(self, v, mp):
        if isinstance(v, (S, M)): return subst(v, mp)
        if isinstance(v, Ptr):
            return Ptr(_dedupe([(subst(g, mp), self.lvsubst(x, mp)) for g, x in v.alts]))
        if isinstance(v, Opq): return Opq(subst(v.s, mp))
        return v
    def lvsubst(self, x, mp):
        if isinstance(x, Loc): return Loc(x.path, tuple(subst(i, mp) for i in x.idx), x.t)
        return x

    def write(self, st, loc, v):
        old = self.raw(st, loc.path, loc.t) if loc.idx else None
        self.types[loc.path] = loc.t
        if loc.idx:
            g = ONE
            for i, x in enumerate(loc.idx):
                if x != S.of(ph(i)): g = g * alg.eq0(S.of(ph(i)) - x)
            v = vite(g, v, old)
        st.mem[loc.path] = v

    # ---------------------------------------------------------------- lvalue access
    def load(self, st, x):
        """value of an evaluated expression"""
        if isinstance(x, Loc):
            if is_ref(x.t): return self.read(st, x)
            if is_scalar(x.t) or is_eig(x.t) or x.t['b'] == 'opaque': return self.read(st, x)
            return x
        if isinstance(x, View):
            b = self.load(st, x.base)
            return b.block(x.r0, x.c0, x.nr, x.nc)
        if isinstance(x, Elem):
            b = self.load(st, x.base)
            if isinstance(b, S): return b
            if self.loopdepth and len(b.t) > 8 and (x.i.const() is None or x.j.const() is None):
                b = alg.unfold_lh_free(b)
            return b.elem(x.i, x.j)
        if isinstance(x, TView): return self.load(st, x.base).T
        if isinstance(x, DView): return self.diag_of(self.load(st, x.base))
        if isinstance(x, IterVar): return Iter(x.lv, self.read(st, x.idx), x.rev)
        if isinstance(x, Comma): return self.load(st, x.lv)
        if isinstance(x, Multi):
            vs = [(g, self.load(st, y)) for g, y in x.alts]
            r = vs[-1][1]
            for g, v in reversed(vs[:-1]): r = vite(g, v, r)
            return r
        return x

    def store(self, st, lv, v, g=ONE):
        if isinstance(lv, Loc):
            if isinstance(v, LV): self.copy(st, lv, v, g); return
            if is_scalar(lv.t) and isinstance(v, M): v = v.elem(0, 0)
            if is_eig(lv.t) and isinstance(v, S): v = M.scalar(v)
            if not g.is1(): v = vite(g, v, self.read(st, lv))
            self.write(st, lv, v)
        elif isinstance(lv, View):
            b = self.load(st, lv.base)
            self.shape(v.r, lv.nr, 'rows of assigned block'); self.shape(v.c, lv.nc, 'cols of assigned block')
            self.store(st, lv.base, b.with_block(lv.r0, lv.c0, lv.nr, lv.nc, v), g)
        elif isinstance(lv, Elem):
            b = self.load(st, lv.base)
            if isinstance(v, M): v = v.elem(0, 0)
            self.store(st, lv.base, b.with_block(lv.i, lv.j, 1, 1, M.scalar(v)), g)
        elif isinstance(lv, TView):
            self.store(st, lv.base, v.T, g)
        elif isinstance(lv, DView):
            b = self.load(st, lv.base); d = v - self.diag_of(b)
            self.store(st, lv.base, b + alg.diagm(d), g)
        elif isinstance(lv, IterVar):
            if not isinstance(v, Iter) or not same(v.lv, lv.lv) or v.rev != lv.rev: raise Unsupported('iterator into another container')
            self.store(st, lv.idx, v.i, g)
        elif isinstance(lv, Multi):
            rest = ONE
            for k, (h, y) in enumerate(lv.alts):
                gg = rest if k == len(lv.alts) - 1 else rest * h
                if y is not None: self.store(st, y, v, g * gg)
                rest = rest * (ONE - h)
        elif isinstance(lv, (M, S)) or lv is None:
            pass
        else: raise Unsupported('store to %r' % type(lv))

    def diag_of(self, m):
        if not m.r == m.c: raise Unsupported('diagonal of a %s x %s matrix' % (m.r, m.c))
        return alg.diagv(m)

    def copy(self, st, dst, src, g=ONE):
        """record / container copy, leaf by leaf"""
        if isinstance(src, Multi):
            # evaluate all leaf values first
            for p, lt, d in self.leaves(dst.t):
                vs = [(h, self.leafval(st, y, p, lt, d, len(dst.idx))) for h, y in src.alts]
                r = vs[-1][1]
                for h, v in reversed(vs[:-1]): r = vite(h, v, r)
                self.leafput(st, dst, p, lt, d, r, g)
            return
        if isinstance(src, (View, Elem, TView, DView, IterVar)):
            self.store(st, dst, self.load(st, src), g); return
        vals = [(p, lt, d, self.leafval(st, src, p, lt, d, len(dst.idx))) for p, lt, d in self.leaves(dst.t)]
        for p, lt, d, v in vals: self.leafput(st, dst, p, lt, d, v, g)

    def leafval(self, st, src, p, lt, d, dstn):
        v = self.raw(st, src.path + p, lt)
        n = len(src.idx)
        mp = {ph(i): x for i, x in enumerate(src.idx)}
        if n != dstn:
            for k in range(d): mp[ph(n + k)] = S.of(ph(dstn + k))
        return self.vsubst(v, mp) if mp else v

    def leafput(self, st, dst, p, lt, d, v, g=ONE):
        idx = dst.idx + tuple(S.of(ph(len(dst.idx) + k)) for k in range(d))
        loc = Loc(dst.path + p, idx, lt)
        if not g.is1(): v = vite(g, v, self.raw(st, loc.path, lt))
        if not dst.idx: 
            self.types[loc.path] = lt; st.mem[loc.path] = v
        else: self.write(st, loc, v)

    def member(self, st, x, name, ft):
        """lvalue of a field of record lvalue x (reference fields are followed)"""
        if isinstance(x, Multi): 
            return self.multi([(g, self.member(st, y, name, ft)) for g, y in x.alts])
        if not isinstance(x, Loc): raise Unsupported('member %s of %r' % (name, type(x)))
        loc = Loc(x.path + (name,), x.idx, ft)
        if ft.get('ref'): return self.deref(self.read(st, loc))
        return loc

    def multi(self, alts):
        flat = []
        for g, y in alts:
            if isinstance(y, Multi): flat += [(g * h, z) for h, z in y.alts]
            else: flat.append((g, y))
        flat = _dedupe(flat)
        return flat[0][1] if len(flat) == 1 else Multi(flat)

    def deref(self, p):
        if isinstance(p, Ptr):
            al = [(g, x) for g, x in p.alts if x is not None]
            if not al: raise Unsupported('null dereference')
            return al[0][1] if len(al) == 1 else Multi(al)
        if isinstance(p, LV): return p
        raise Unsupported('deref of %r' % type(p))

    def elemof(self, x, i, t=None):
        """element lvalue of a container lvalue"""
        if isinstance(x, Multi): return self.multi([(g, self.elemof(y, i)) for g, y in x.alts])
        et = x.t['a'][0]
        return Loc(x.path + ('[]',), x.idx + (S.of(i),), et)

    def shape(self, a, b, what):
        if a == b: return
        self.oblig('shape', alg.eq0(a - b), what + ': %s vs %s' % (a, b), (a, b))

    def oblig(self, kind, cond, text, ctx=None):
        f = self.stack[-1].f if self.stack else {}
        pc = ONE
        for c in self.ctx: pc = pc * c
        self.obls.append(Oblig(kind=kind, file=f.get('file', '?'), line=self.line, fn=f.get('q', '?'),
                               cond=cond, pc=pc * (self.cur.pc if getattr(self, 'cur', None) else ONE), text=text, ctx=ctx))
        if not cond.is1(): self.obls[-1].facts = tuple(FACTS.l)

    @property
    def failed(self):
        """obligations that fail on the path taken"""
        return [o for o in self.obls if o.cond.is0() and o.pc.is1()]

    def event(self, kind, st, **data):
        pc = st.pc
        for c in self.ctx: pc = pc * c
        f = self.stack[-1].f if self.stack else {}
        data['file'] = f.get('file'); data['line'] = self.line; data['fn'] = f.get('id')
        self.events.append((kind, pc, data))

    # ---------------------------------------------------------------- calls
    def call(self, st, f, this, args):
        """inline a repository function; args: list of evaluated (LV or value). Returns value/LV."""
        self.calls += 1
        self.funcs_seen.add(f['id'])
        if len(self.stack) > 60: raise Unsupported('call depth')
        fr = Frame(f, this)
        for p, a in zip(f['params'], args): self.bind(st, fr, p, a)
        return self.run_body(st, f, fr, this, True)

    def run_body(self, st, f, fr, this, drop):
        self.stack.append(fr); self.ctx.append(st.pc); line = self.line
        pc0 = st.pc; st.pc = ONE
        try:
            if f.get('ctor'): self.ctor_inits(st, fr, f, this)
            end = self.exec(st, f.get('body'), fr)
            rets = fr.rets
            if end is not None: rets = rets + [(end.pc, end, None)]
            if not rets:
                st.pc = ZERO; return None       # no normal exit (abort)
            if len(rets) == 1: g, s, v = rets[0]
            else:
                g, s, v = rets[-1]
                for h, s2, v2 in reversed(rets[:-1]):
                    v = vite(h, v2, v) if v is not None or v2 is not None else None
                    s = self.merge(h, s2, s)
            st.mem = s.mem
            if drop and not isinstance(v, (LV, Closure)) and not (isinstance(v, Iter) and isinstance(v.lv, Loc) and v.lv.path[:2] == ('L', fr.id)):
                fid = fr.id
                for k in [k for k in st.mem if k[0] == 'L' and k[1] == fid]: del st.mem[k]
            return v
        finally:
            self.stack.pop(); self.ctx.pop(); self.line = line
            st.pc = pc0 if not st.pc.is0() else ZERO

    def bind(self, st, fr, p, a):
        t = p['t']
        if t.get('ref') and isinstance(a, LV):
            fr.env[p['id']] = a; return
        if t.get('ref') and isinstance(a, (Ptr,)) and not t.get('ptr'):
            fr.env[p['id']] = self.deref(a); return
        loc = Loc(('L', fr.id, p['id'], p['n']), (), strip_ref(t))
        fr.env[p['id']] = loc
        a = self.load(st, a)
        if isinstance(a, VALUES): fr.env[p['id']] = self.hold(st, fr, p, a); return
        if a is None: return
        self.store(st, loc, a)

    def hold(self, st, fr, v, x):
        """what a variable bound to a non-term value denotes"""
        if isinstance(x, Iter):
            idx = Loc(('L', fr.id, v['id'], v['n']), (), {'b': 'int'})
            self.write(st, idx, x.i); return IterVar(x.lv, idx, x.rev)
        return x

    def ctor_inits(self, st, fr, f, this):
        rec = f['cls']
        given = set()
        for i in f.get('inits', []):
            self.line = i['l']
            if 'm' in i:
                fld = dict(self.fields(rec)).get(i['m'])
                loc = Loc(this.path + (i['m'],), this.idx, fld)
                if fld.get('ref'):
                    v = self.ev(st, i['e'], fr)
                    self.write(st, loc, Ptr([(ONE, v)]) if not isinstance(v, (Ptr, Multi)) else
                               (v if isinstance(v, Ptr) else Ptr(list(v.alts))))
                else: self.init_into(st, loc, i['e'], fr)
            elif 'base' in i:
                e = i['e']
                if e and e['k'] == 'Ctor':
                    self.ctor_call(st, Loc(this.path, this.idx, i['base']), e, fr)
            elif i.get('deleg'):
                self.ctor_call(st, this, i['e'], fr)

    def init_into(self, st, loc, e, fr):
        """initialise the object at loc from initialiser expression e"""
        if e is None: return
        k = e['k']
        if k == 'Ctor': self.ctor_call(st, loc, e, fr); return
        if k == 'InitList':
            if is_scalar(loc.t): 
                self.store(st, loc, self.load(st, self.ev(st, e['args'][0], fr)) if e['args'] else ZERO); return
            if is_vec(loc.t):
                if loc.t['b'] == 'std::array' and len(e['args']) == 1 and e['args'][0]['k'] == 'InitList' and is_vec(e['args'][0]['t']): e = e['args'][0]
                if loc.t['b'] == 'std::array': self.vec_fill(st, loc, loc.t['n'])
                else: self.vec_fill(st, loc, len(e['args']))
                for i, a in enumerate(e['args']):
                    self.store(st, self.elemof(loc, i), self.load(st, self.ev(st, a, fr)))
                return
            if loc.t['b'] == 'std::pair' and len(e['args']) == 2:
                for n, ft, a in zip(('first', 'second'), loc.t['a'], e['args']):
                    self.init_into(st, Loc(loc.path + (n,), loc.idx, strip_ref(ft)), a, fr)
                return
            if loc.t.get('rec'):
                for (n, ft), a in zip(self.fields(loc.t['b']), e['args']):
                    self.init_into(st, Loc(loc.path + (n,), loc.idx, ft), a, fr)
                return
        if k == 'Zero':
            if is_scalar(loc.t): self.store(st, loc, ZERO)
            return
        if k == 'Temp': self.init_into(st, loc, e['e'], fr); return
        if is_ref(loc.t):
            v = self.ev(st, e, fr)
            if isinstance(v, Loc) and v.t.get('ptr'): v = self.load(st, v)
            self.write(st, loc, v if isinstance(v, (Ptr, Opq)) else Ptr([(ONE, v)]))
            return
        v = self.load(st, self.ev(st, e, fr))
        if v is None: return
        self.store(st, loc, v)

    def ctor_call(self, st, loc, e, fr):
        """construct loc with constructor expression e"""
        args = e['args']; t = loc.t
        self.line = e.get('l', self.line)
        if e['k'] != 'Ctor': self.init_into(st, loc, e, fr); return
        if e.get('copy'):
            src = self.ev(st, args[0], fr)
            if isinstance(src, LV) and not is_eig(t): self.store(st, loc, src)
            else: self.store(st, loc, self.load(st, src))
            return
        if is_eig(t): self.eig_ctor(st, loc, e, fr); return
        if is_vec(t):
            a = [self.ev(st, x, fr) for x in args if not x.get('t', {}).get('b', '').startswith('std::allocator')]
            a = [x for x in a if x is not None]
            if e['f'].get('cls', '').startswith('boost::circular') and a:
                self.write(st, Loc(loc.path + ('#cap',), loc.idx, {'b': 'int'}), self.load(st, a[0]))
                self.vec_fill(st, loc, 0)
            elif len(a) == 2 and all(isinstance(self.load(st, x), Iter) for x in a):
                self.vec_fill(st, loc, 0); ext.append_range(self, st, loc, self.load(st, a[0]), self.load(st, a[1]), fr)
            elif not a or not isinstance(self.load(st, a[0]), S): 
                if a and isinstance(a[0], LV) and isinstance(self.load(st, a[0]), Loc) and is_vec(self.load(st, a[0]).t):
                    self.store(st, loc, a[0])
                else: self.vec_fill(st, loc, 0)
            else: self.vec_fill(st, loc, self.load(st, a[0]), a[1] if len(a) > 1 and e['f'].get('n') else None)
            return
        if t['b'] == 'std::pair':
            a = [self.ev(st, x, fr) for x in args]
            if not a: self.default_init(st, loc); return
            if len(a) == 1:
                x = self.load(st, a[0])
                if not isinstance(x, Loc) or x.t['b'] != 'std::pair': raise Unsupported('constructor of std::pair')
                a = [Loc(x.path + (n,), x.idx, strip_ref(ft)) for n, ft in zip(('first', 'second'), x.t['a'])]
            if len(a) != 2: raise Unsupported('constructor of std::pair')
            for n, ft, x in zip(('first', 'second'), t['a'], a):
                fl = Loc(loc.path + (n,), loc.idx, strip_ref(ft))
                self.store(st, fl, x if isinstance(x, LV) and not is_eig(ft) and not is_scalar(ft) else self.load(st, x))
            return
        if t['b'] in OWN_T:
            a = [self.load(st, self.ev(st, x, fr)) for x in args]
            if a and isinstance(a[0], Ptr): self.own_reset(st, loc, a[0])
            return
        f = self.P.fun.get(e['f']['id'])
        if f is not None:
            a = [self.ev(st, x, fr) for x in args]
            h = self.handler(e['f'])
            if h: h(self, st, loc, a, e, fr); return
            self.default_fields(st, loc, f)
            self.call(st, f, loc, a); return
        if e.get('impl') or e.get('def'):
            # implicit default constructor without emitted body
            self.default_fields(st, loc, None); return
        h = self.handler(e['f']) if e.get('f') else None
        if h: h(self, st, loc, [self.ev(st, x, fr) for x in args], e, fr); return
        for x in args: self.ev(st, x, fr)

    def default_fields(self, st, loc, f):
        """default construction of fields without an explicit initialiser in ctor f"""
        inited = {i['m'] for i in (f.get('inits', []) if f else []) if 'm' in i}
        fs = self.fields(loc.t['b']) or []
        r = self.P.rec.get(loc.t['b'])
        nsdmi = {x['n']: x['init'] for x in (r['fields'] if r else []) if x.get('init')}
        for n, ft in fs:
            if n in inited: continue
            fl = Loc(loc.path + (n,), loc.idx, ft)
            if n in nsdmi:
                self.init_into(st, fl, nsdmi[n], Frame({'q': '?', 'file': '?'}, loc)); continue
            self.default_init(st, fl)

    def default_init(self, st, loc):
        t = loc.t
        if is_ref(t) or is_scalar(t):
            self.leafput(st, loc, (), t, 0, self.undef(loc.path, t)); return
        if is_eig(t):
            self.leafput(st, loc, (), t, 0, self.undef(loc.path, t)); return
        if t['b'] == 'std::pair':
            for n, ft in zip(('first', 'second'), t['a']): self.default_init(st, Loc(loc.path + (n,), loc.idx, strip_ref(ft)))
            return
        if is_vec(t):
            if 'n' in t: self.vec_fill(st, loc, t['n']); return
            self.write(st, Loc(loc.path + ('#len',), loc.idx, {'b': 'int'}), ZERO)
            if t['b'] == 'boost::circular_buffer':
                self.write(st, Loc(loc.path + ('#cap',), loc.idx, {'b': 'int'}), ZERO)
            return
        if t['b'] in OWN_T: return
        c = None
        for g in self.P.fun.values():
            if g.get('ctor') and g.get('cls') == t['b'] and not g['params']: c = g; break
        self.default_fields(st, loc, c)
        if c is not None: self.call(st, c, loc, [])

    def undef(self, path, t):
        name = '.'.join(str(c) for c in path)
        if is_ref(t): return Ptr([(ONE, None)])
        if is_scalar(t):
            return S.of(atom('undef', (name,), name='?' + name, integer=is_int(t) or is_bool(t), boolean=is_bool(t), lb=0 if is_bool(t) else None))
        if is_eig(t):
            r = t.get('r', -1); c = t.get('c', -1)
            r = 0 if r is None or r < 0 else r; c = 0 if c is None or c < 0 else c
            if r == 0 or c == 0: return M.zero(r, c)
            return M.of(matom('undef', (name,), r, c, name='?' + name))
        return Opq(S.of(atom('undef', (name,))))

    # ---------------------------------------------------------------- containers
    def lenloc(self, lv): return Loc(lv.path + ('#len',), lv.idx, {'b': 'int', 'lb0': 1})
    def veclen(self, st, lv):
        if isinstance(lv, Multi):
            r = self.veclen(st, lv.alts[-1][1])
            for g, y in reversed(lv.alts[:-1]): r = vite(g, self.veclen(st, y), r)
            return r
        return self.read(st, self.lenloc(lv))

    def vec_fill(self, st, lv, n, val=None):
        self.write(st, self.lenloc(lv), S.of(n))
        if isinstance(n, int) and n == 0: return
        self.vec_set_range(st, lv, ZERO, val)

    def vec_set_range(self, st, lv, frm, val=None):
        """elements with index >= frm become default constructed (or val)"""
        et = lv.t['a'][0]
        d0 = len(lv.idx)
        tmp = Loc(('T', next(self.tmp)), (), et)
        if val is not None: self.store(st, tmp, self.load(st, val) if not isinstance(val, LV) else val)
        elif is_scalar(et): self.store(st, tmp, ZERO)
        else: self.default_init(st, tmp)
        for p, lt, d in self.leaves(et):
            v = self.raw(st, tmp.path + p, lt)
            v = self.vsubst(v, {ph(k): S.of(ph(d0 + 1 + k)) for k in range(d)})
            loc = Loc(lv.path + ('[]',) + p, lv.idx + tuple(S.of(ph(d0 + k)) for k in range(d + 1)), lt)
            if frm.is0() and not lv.idx:
                self.types[loc.path] = lt; st.mem[loc.path] = v
            else:
                old = self.raw(st, loc.path, lt)
                g = alg.b_not(alg.lt0(S.of(ph(d0)) - frm))
                for i, x in enumerate(lv.idx): g = g * alg.eq0(S.of(ph(i)) - x)
                st.mem[loc.path] = vite(g, v, old)
        for k in [k for k in st.mem if k[:2] == tmp.path]: del st.mem[k]

    def vec_shift(self, st, lv, by):
        """element k becomes former element k+by"""
        d0 = len(lv.idx)
        for p, lt, d in self.leaves(lv.t['a'][0]):
            path = lv.path + ('[]',) + p
            v = self.raw(st, path, lt)
            v2 = self.vsubst(v, {ph(d0): S.of(ph(d0)) + by})
            if lv.idx:
                g = ONE
                for i, x in enumerate(lv.idx): g = g * alg.eq0(S.of(ph(i)) - x)
                v2 = vite(g, v2, v)
            st.mem[path] = v2

    def vec_method(self, st, lv, n, args, e):
        if isinstance(lv, Multi):
            if n in ('size', '[]', 'at', 'empty', 'front', 'back', 'capacity', 'begin', 'end'):
                rs = [(g, self.vec_method(st, y, n, args, e)) for g, y in lv.alts]
                if isinstance(rs[0][1], LV): return self.multi(rs)
                if isinstance(rs[0][1], Iter):
                    i = rs[-1][1].i
                    for g, r in reversed(rs[:-1]): i = ite(g, r.i, i)
                    return Iter(self.multi([(g, r.lv) for g, r in rs]), i)
                r = rs[-1][1]
                for g, v in reversed(rs[:-1]): r = vite(g, v, r)
                return r
            raise Unsupported('vector method %s on alternatives' % n)
        L = self.veclen(st, lv)
        if n == 'size': return L
        if n == 'empty': return alg.eq0(L)
        if n in ('[]', 'at', 'operator[]', 'operator()'):
            i = self.load(st, args[0])
            self.oblig('index', alg.b_not(alg.lt0(i)) * alg.lt0(i - L), 'index %s of container of size %s' % (i, L), (i, L))
            return self.elemof(lv, i)
        if n == 'front':
            self.oblig('index', alg.b_not(alg.lt0(L - 1)), 'front() of container of size %s' % L, (ZERO, L))
            return self.elemof(lv, 0)
        if n == 'back':
            self.oblig('index', alg.b_not(alg.lt0(L - 1)), 'back() of container of size %s' % L, (ZERO, L))
            return self.elemof(lv, L - 1)
        if n == 'emplace_back' and len(args) > 1:
            et = lv.t['a'][0]; cs = [f for f in self.P.fun.values() if f.get('cls') == et['b'] and f.get('ctor') and len(f['params']) == len(args)]
            if len(cs) != 1 and et['b'] != 'std::pair': raise Unsupported('emplace_back')
            tmp = Loc(('T', next(self.tmp)), (), et)
            if cs: self.default_fields(st, tmp, cs[0]); self.call(st, cs[0], tmp, args)
            else:
                for k, ft, x in zip(('first', 'second'), et['a'], args): self.store(st, Loc(tmp.path + (k,), (), strip_ref(ft)), self.load(st, x))
            args = [tmp]
        if n == 'push_back' or n == 'emplace_back':
            v = args[0] if args else None
            if lv.t['b'] == 'boost::circular_buffer':
                cap = self.read(st, Loc(lv.path + ('#cap',), lv.idx, {'b': 'int'}))
                full = alg.b_not(alg.lt0(L - cap))
                if full.is1():
                    self.vec_shift(st, lv, 1); L = cap - 1
                elif not full.is0():
                    s2 = st.fork(); s2.mem = dict(st.mem)
                    self.vec_shift(s2, lv, 1)
                    m = self.merge(full, s2, st); st.mem = m.mem
                    L = ite(full, cap - 1, L)
            if isinstance(v, Ptr):
                self.own_into(st, self.elemof(lv, L), v)
            elif v is not None:
                self.store(st, self.elemof(lv, L), v if isinstance(v, LV) and not is_eig(lv.t['a'][0]) and not is_scalar(lv.t['a'][0]) else self.load(st, v))
            self.write(st, self.lenloc(lv), L + 1)
            return None
        if n == 'pop_front':
            self.oblig('index', alg.b_not(alg.lt0(L - 1)), 'pop_front() of container of size %s' % L, (ZERO, L))
            self.vec_shift(st, lv, 1); self.write(st, self.lenloc(lv), L - 1); return None
        if n == 'pop_back':
            self.oblig('index', alg.b_not(alg.lt0(L - 1)), 'pop_back() of container of size %s' % L, (ZERO, L))
            self.write(st, self.lenloc(lv), L - 1); return None
        if n == 'resize':
            m = self.load(st, args[0])
            sg = alg.sign(m - L)
            if sg not in ('0', '-', '<=0'):
                self.vec_set_range(st, lv, L, args[1] if len(args) > 1 and args[1] is not None else None)
            self.write(st, self.lenloc(lv), m); return None
        if n == 'assign' and len(args) == 2:
            m = self.load(st, args[0])
            if isinstance(m, Iter):
                b = self.load(st, args[1])
                tmp = Loc(('T', next(self.tmp)), (), lv.t)
                self.vec_fill(st, tmp, 0); ext.append_range(self, st, tmp, m, b, None); self.copy(st, lv, tmp); return None
            self.vec_set_range(st, lv, ZERO, args[1]); self.write(st, self.lenloc(lv), m); return None
        if n in ('reserve', 'shrink_to_fit'): return None
        if n == 'clear': self.write(st, self.lenloc(lv), ZERO); return None
        if n in ('set_capacity', 'rset_capacity'):
            m = self.load(st, args[0])
            self.write(st, Loc(lv.path + ('#cap',), lv.idx, {'b': 'int'}), m)
            self.write(st, self.lenloc(lv), ite(alg.lt0(m - L), m, L)); return None
        if n == 'capacity':
            if lv.t['b'] == 'boost::circular_buffer':
                return self.read(st, Loc(lv.path + ('#cap',), lv.idx, {'b': 'int'}))
            return alg.uf('capacity', str(lv.path), integer=True)
        if n in ('begin', 'cbegin'): return Iter(lv, ZERO)
        if n in ('end', 'cend'): return Iter(lv, L)
        if n in ('rbegin', 'crbegin'): return Iter(lv, ZERO, True)
        if n in ('rend', 'crend'): return Iter(lv, L, True)
        if n == 'fill' and len(args) == 1:
            self.vec_set_range(st, lv, ZERO, args[0]); return None
        if n == 'insert' and len(args) == 3:
            it = [self.load(st, a) for a in args]
            if all(isinstance(x, Iter) for x in it) and (it[0].i - L).is0():
                ext.append_range(self, st, lv, it[1], it[2], None); return Iter(lv, L)
        if n == 'insert' and len(args) == 2:
            it = self.load(st, args[0])
            if isinstance(it, Iter) and (it.i - L).is0(): self.vec_method(st, lv, 'push_back', args[1:], e); return Iter(lv, L)
            if isinstance(it, Iter) and it.i.is0(): n = 'push_front'; args = args[1:]
        if n == 'push_front' and lv.t['b'] != 'boost::circular_buffer':
            self.vec_shift(st, lv, -1); self.write(st, self.lenloc(lv), L + 1)
            self.store(st, self.elemof(lv, ZERO), args[0] if not is_eig(lv.t['a'][0]) and not is_scalar(lv.t['a'][0]) else self.load(st, args[0])); return None
        if n == 'erase':
            args = [self.load(st, a) for a in args]
            it = args[0]
            if isinstance(it, Iter) and len(args) == 1:
                i = it.i
                if i.is0(): self.vec_shift(st, lv, 1)
                else:
                    s2 = st.fork(); s2.mem = dict(st.mem); self.vec_shift(s2, lv, 1)
                    for p, lt, d in self.leaves(lv.t['a'][0]):
                        path = lv.path + ('[]',) + p
                        st.mem[path] = vite(alg.lt0(S.of(ph(len(lv.idx))) - i), self.raw(st, path, lt), self.raw(s2, path, lt))
                self.write(st, self.lenloc(lv), L - 1); return Iter(lv, i)
            if len(args) == 2 and all(isinstance(x, Iter) for x in args) and args[0].i.is0() and (args[1].i - L).is0():
                self.write(st, self.lenloc(lv), ZERO); return Iter(lv, ZERO)
        if n == 'swap' and len(args) == 1 and isinstance(args[0], Loc):
            tmp = Loc(('T', next(self.tmp)), (), lv.t)
            self.copy(st, tmp, lv); self.copy(st, lv, args[0]); self.copy(st, args[0], tmp); return None
        raise Unsupported('container method %s %r' % (n, args))

    def own_reset(self, st, lv, p): self.own_into(st, Loc(lv.path + ('*',), lv.idx, lv.t['a'][0]), p)
    def own_into(self, st, loc, p):
        al = [(g, x) for g, x in p.alts if x is not None]
        if al: self.copy(st, loc, al[0][1] if len(al) == 1 else Multi(al))

    # ---------------------------------------------------------------- merging
    def merge(self, c, a, b):
        """state that is a when c, b otherwise"""
        if c.is1(): return State(a.mem, a.pc)
        if c.is0(): return State(b.mem, b.pc)
        out = State({}, a.pc + b.pc)
        for k in itertools.chain(a.mem, (k for k in b.mem if k not in a.mem)):
            x = a.mem.get(k); y = b.mem.get(k)
            if x is y: out.mem[k] = x; continue
            if x is None:
                if k[0] in ('L', 'T'): out.mem[k] = y; continue
                x = self.init_value(k, self.types[k])
            if y is None:
                if k[0] in ('L', 'T'): out.mem[k] = x; continue
                y = self.init_value(k, self.types[k])
            out.mem[k] = vite(c, x, y)
        return out

    def fact_of(self, c, val):
        """scalars known >= 0 when boolean c == val"""
        out = []
        c = c if val else ONE - c
        # c == 1
        if len(c.t) == 1:
            (m, co), = c.t.items()
            if co == 1:
                for a, e in m:
                    A = alg._by_id[a]
                    if A.kind == 'lt0': p = A.args[0]; out.append(-p - 1 if alg.all_int(p) else -p)
                    elif A.kind == 'eq0': out += [A.args[0], -A.args[0]]
            return out
        n = ONE - c
        if len(n.t) == 1:
            (m, co), = n.t.items()
            if co == 1 and len(m) == 1:
                A = alg._by_id[m[0][0]]
                if A.kind == 'lt0': out.append(A.args[0])
                elif A.kind == 'eq0' and alg.all_int(A.args[0]):
                    p = A.args[0]
                    if alg.ge0(p): out.append(p - 1)
                    elif alg.ge0(-p): out.append(-p - 1)
        else:
            # product of indicators and negated indicators
            for a in c.atoms():
                if a.kind == 'lt0' and a.boolean:
                    if subst(c, {a: ZERO}).is0():
                        p = a.args[0]; out.append(-p - 1 if alg.all_int(p) else -p)
                    elif subst(c, {a: ONE}).is0(): out.append(a.args[0])
        return out

    # ---------------------------------------------------------------- statements
    def exec(self, st, s, fr):
        """returns the normal-exit state, or None"""
        if s is None or st is None: return st
        self.cur = st
        k = s['k']
        self.line = s.get('l', self.line)
        if k == 'Block':
            mk = FACTS.mark()
            try:
                for x in s['b']:
                    st = self.exec(st, x, fr)
                    if st is None: return None
                return st
            finally: FACTS.release(mk)
        if k == 'Expr':
            self.ev(st, s['e'], fr)
            return None if st.pc.is0() else st
        if k == 'Nop': return st
        if k == 'Decl':
            for v in s['v']: self.decl(st, v, fr)
            return None if st.pc.is0() else st
        if k == 'Return':
            v = self.ev(st, s['e'], fr) if s.get('e') else None
            rt = fr.f.get('ret', {})
            if isinstance(v, (LV, Comma)) and not rt.get('ref'):
                v = self.load(st, v)
                if isinstance(v, Loc): 
                    tmp = Loc(('T', next(self.tmp)), (), v.t); self.copy(st, tmp, v); v = tmp
                elif isinstance(v, Multi):
                    tmp = Loc(('T', next(self.tmp)), (), strip_ref(rt)); self.copy(st, tmp, v); v = tmp
            if isinstance(v, M) and is_scalar(rt): v = v.elem(0, 0)
            if isinstance(v, (S,)) and is_eig(rt): v = M.scalar(v)
            if st.pc.is0(): return None
            fr.rets.append((st.pc, st, v)); return None
        if k == 'If':
            if s.get('init'): st = self.exec(st, s['init'], fr)
            if s.get('var'): self.decl(st, s['var'], fr)
            c = self.boolv(st, s['c'], fr)
            if st.pc.is0(): return None
            if c.is1(): return self.exec(st, s['then'], fr)
            if c.is0(): return self.exec(st, s.get('else'), fr)
            a = st.fork(c); b = st.fork(ONE - c)
            mk = FACTS.mark()
            for f in self.fact_of(c, 1): FACTS.push(f)
            a2 = self.exec(a, s['then'], fr)
            FACTS.release(mk)
            for f in self.fact_of(c, 0): FACTS.push(f)
            b2 = self.exec(b, s.get('else'), fr)
            FACTS.release(mk)
            if a2 is None: 
                if b2 is not None:
                    for f in self.fact_of(c, 0): FACTS.push(f)
                return b2
            if b2 is None:
                for f in self.fact_of(c, 1): FACTS.push(f)
                return a2
            return self.merge(c, a2, b2)
        if k in ('For', 'While', 'Do', 'RangeFor'): return self.loop(st, s, fr)
        if k == 'Switch': return self.switch(st, s, fr)
        if k in ('Break', 'Continue'):
            if not fr.loops: raise Unsupported(k)
            tgt = fr.loops[-1] if k == 'Break' or fr.loops[-1]['kind'] == 'loop' else next(x for x in reversed(fr.loops) if x['kind'] == 'loop')
            tgt['brk' if k == 'Break' else 'cont'].append((st.pc, st)); return None
        if k == 'Try': return self.exec(st, s['body'], fr)
        if k in ('Case', 'Default'): return self.exec(st, s['s'], fr)
        raise Unsupported('statement ' + k)

    def decl(self, st, v, fr):
        t = v['t']
        self.line = v.get('l', self.line)
        if t.get('ref') and not t.get('ptr') and v.get('init'):
            x = self.ev(st, v['init'], fr)
            if isinstance(x, Ptr): x = self.deref(x)
            if isinstance(x, (View,)) and isinstance(x.base, M): x = self.load(st, x)
            if not isinstance(x, LV):
                loc = Loc(('L', fr.id, v['id'], v['n']), (), pointee(t))
                if isinstance(x, VALUES): fr.env[v['id']] = self.hold(st, fr, v, x); return
                self.store(st, loc, x); x = loc
            fr.env[v['id']] = x; return
        loc = Loc(('L', fr.id, v['id'], v['n']), (), strip_ref(t))
        if v.get('static'):
            if v.get('init') and (t.get('const') or is_scalar(t) and not t.get('ptr')): return       # its references carry the initialiser
            raise Unsupported('static local')
        if v.get('init'):
            if is_eig(t) and t.get('e') not in ('Matrix', 'Array'):
                x = self.ev(st, v['init'], fr)
                fr.env[v['id']] = x; return
            e = v['init']
            while e and e['k'] in ('Temp',): e = e['e']
            x = e
            while x and (x['k'] == 'Temp' or x['k'] == 'Ctor' and x.get('copy') and len(x['args']) == 1): x = x['e'] if x['k'] == 'Temp' else x['args'][0]
            if x and (x['k'] == 'Lambda' or x['k'] == 'Ref' and isinstance(fr.env.get(x.get('id')), Closure)): fr.env[v['id']] = self.load(st, self.ev(st, x, fr)); return
            if (is_eig(t) or t.get('rec') or is_vec(t) or t['b'] in OWN_T or t['b'] == 'std::pair') and not is_ref(t):
                fr.env[v['id']] = loc
                self.init_into(st, loc, e, fr); return
            x = self.ev(st, e, fr)
            x = self.load(st, x)
            if isinstance(x, VALUES): fr.env[v['id']] = self.hold(st, fr, v, x); return
            fr.env[v['id']] = loc
            if isinstance(x, M) and is_scalar(t): x = x.elem(0, 0)
            if x is None: self.default_init(st, loc); return
            self.write(st, loc, x); return
        fr.env[v['id']] = loc
        self.default_init(st, loc)

    def switch(self, st, s, fr):
        c = self.load(st, self.ev(st, s['c'], fr))
        body = s['body']
        stmts = body['b'] if body['k'] == 'Block' else [body]
        flat = []; labels = []          # labels: (value or None for default, position)
        for x in stmts:
            while x and x['k'] in ('Case', 'Default'):
                labels.append((x.get('v') if x['k'] == 'Case' else None, len(flat)))
                x = x['s']
            flat.append(x)
        mem0 = st
        rest = ONE; out = []
        rec = {'kind': 'switch', 'brk': [], 'cont': []}
        fr.loops.append(rec)
        cases = []
        for v, pos in labels:
            if v is None: continue
            g = rest * alg.eq0(c - v); rest = rest * alg.b_not(alg.eq0(c - v))
            cases.append((g, pos, c - v))
        dflt = [pos for v, pos in labels if v is None]
        cases.append((rest, dflt[0] if dflt else None, None))
        for g, pos, d in cases:
            if g.is0(): continue
            a = st.fork(g) if not g.is1() else st.fork()
            if pos is None: out.append((g, a)); continue
            mk = FACTS.mark()
            if d is not None: FACTS.push(d); FACTS.push(-d)
            n0 = len(rec['brk'])
            for x in flat[pos:]:
                a = self.exec(a, x, fr)
                if a is None: break
            FACTS.release(mk)
            brk = rec['brk'][n0:]; 
            alts = [(p, q) for p, q in brk]
            if a is not None: alts.append((a.pc, a))
            if not alts: continue
            m = alts[-1][1]
            for p, q in reversed(alts[:-1]): m = self.merge(p, q, m)
            out.append((g, m))
        fr.loops.pop()
        if not out: return None
        m = out[-1][1]
        for g, a in reversed(out[:-1]): m = self.merge(g, a, m)
        return m

    def boolv(self, st, e, fr):
        v = self.load(st, self.ev(st, e, fr))
        return self.tobool(v)
    def tobool(self, v):
        if isinstance(v, S):
            if all(a.boolean for a in v.atoms()):
                c = v.const()
                if c is not None: return ONE if c != 0 else ZERO
                return v
            return alg.b_not(alg.eq0(v))
        if isinstance(v, Ptr):
            r = ZERO
            for g, x in v.alts:
                if x is not None: r = r + g
            return r
        if isinstance(v, Opq): return alg.uf('bool', v.s, boolean=True, integer=True, lb=0)
        raise Unsupported('condition %r' % type(v))

    # loops are in loops.py
    def loop(self, st, s, fr):
        from . import loops
        return loops.loop(self, st, s, fr)

    # ---------------------------------------------------------------- expressions
    def ev(self, st, e, fr):
        if e is None: return None
        self.cur = st
        k = e['k']
        if 'l' in e: self.line = e['l']
        return getattr(self, 'e_' + k, self.e_unknown)(st, e, fr)

    def val(self, st, e, fr): return self.load(st, self.ev(st, e, fr))

    def e_unknown(self, st, e, fr): raise Unsupported('expression ' + e['k'])
    def e_Int(self, st, e, fr): return S.of(int(e['v']))
    def e_Bool(self, st, e, fr): return S.of(int(e['v']))
    def e_Float(self, st, e, fr):
        s = (e.get('src') or '').rstrip('fFlL')
        try: return S.of(Fr(s))
        except Exception:
            try: return S.of(Fr(e['v']))
            except Exception: return alg.uf('lit', e['v'])
    def e_Str(self, st, e, fr): return Opq(S.of(atom('str', ())))
    def e_Null(self, st, e, fr): return Ptr([(ONE, None)])
    def e_This(self, st, e, fr): return Ptr([(ONE, fr.this)])
    def e_Zero(self, st, e, fr): return ZERO
    def e_Sizeof(self, st, e, fr): return alg.uf('sizeof', str(e['t']), integer=True)
    def e_Temp(self, st, e, fr):
        return self.ev(st, e['e'], fr)
    def e_Cast(self, st, e, fr):
        v = self.val(st, e['e'], fr)
        ck = e['ck']
        if ck in ('FloatingToIntegral',):
            if alg.all_int(v): return v
            c = v.const()
            if c is not None: return S.of(int(c))
            return alg.uf('trunc', v, integer=True)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.tobool(v)
        return v
    def e_Ref(self, st, e, fr):
        d = e['d']
        if d in ('local', 'param'):
            x = fr.env.get(e['id'])
            if x is None:
                raise Unsupported('unbound variable ' + e['n'])
            if isinstance(x, Loc) and x.t.get('ref') and not x.t.get('ptr'): return self.deref(self.read(st, x))
            return x
        if d == 'enum': return S.of(e['v'])
        if d in ('global', 'slocal'):
            q = e.get('q', e['n'])
            if e.get('init'):
                if e.get('gc') or not is_scalar(e['t']) or e['t'].get('ptr'): return self.global_init(st, e)
                loc = Loc(('SL', q), (), strip_ref(e['t']))      # a variable that outlives the call: its first value is that of its initialiser
                if loc.path not in self.statics: self.statics[loc.path] = self.global_init(st, e)
                self.types[loc.path] = loc.t
                return loc
            h = self.summ.get(q)
            if h: return h(self, st, None, [], e, fr)
            t = e['t']
            self.init_mode.setdefault('G', 'sym')
            return Loc(('G', q), (), strip_ref(t))
        if d == 'fun': return Opq(S.of(atom('fun', (e['f']['id'],))))
        raise Unsupported('ref ' + d)

    def global_init(self, st, e):
        init = e['init']
        while init['k'] == 'Temp': init = init['e']
        if init['k'] == 'Ctor' and is_eig(e['t']):
            loc = Loc(('T', next(self.tmp)), (), strip_ref(e['t']))
            self.init_into(st, loc, init, Frame({'q': '?', 'file': '?'}, None))
            v = self.read(st, loc); del st.mem[loc.path]
            return v
        v = self.val(st, init, Frame({'q': '?', 'file': '?'}, None))
        return v

    def e_Field(self, st, e, fr):
        b = self.ev(st, e['base'], fr)
        if e.get('arrow'):
            b = self.load(st, b) if not isinstance(b, Ptr) else b
            b = self.deref(b)
        elif isinstance(b, Ptr): b = self.deref(b)
        elif isinstance(b, Loc) and is_ref(b.t): b = self.deref(self.read(st, b))
        ft = self.field_type(e, b)
        return self.member(st, b, e['n'], ft)

    def field_type(self, e, b):
        fs = self.fields(e.get('cls', ''))
        if fs:
            for n, t in fs:
                if n == e['n']: return t
        return e['t']

    def e_Un(self, st, e, fr):
        op = e['op']
        if op == '&':
            x = self.ev(st, e['e'], fr)
            if isinstance(x, Multi): return Ptr(list(x.alts))
            return Ptr([(ONE, x)])
        if op == '*':
            p = self.val(st, e['e'], fr)
            if isinstance(p, Opq): return p
            if isinstance(p, Iter): return self.at(p)
            return self.deref(p)
        if op in ('++', '--', 'post++', 'post--'):
            x = self.ev(st, e['e'], fr)
            v = self.load(st, x)
            if isinstance(v, Iter): return self.step_iter(st, x, v, op)
            d = 1 if '++' in op else -1
            self.store(st, x, v + d)
            return v if op.startswith('post') else x
        v = self.val(st, e['e'], fr)
        if op == '-': return -v
        if op == '+': return v
        if op == '!': return alg.b_not(self.tobool(v))
        raise Unsupported('unary ' + op)

    def at(self, it, k=ZERO):
        """the element an iterator stands at"""
        i = it.i + k
        L = self.veclen(self.cur, it.lv)
        if it.rev: i = L - 1 - i
        self.oblig('index', alg.b_not(alg.lt0(i)) * alg.lt0(i - L), 'iterator at %s of container of size %s' % (i, L), (i, L))
        return self.elemof(it.lv, i)

    def step_iter(self, st, x, v, op):
        d = 1 if '++' in op else -1
        if not isinstance(x, IterVar): raise Unsupported('iterator arithmetic')
        self.store(st, x.idx, v.i + d)
        return v if op.startswith('post') else x

    def e_Py(self, st, e, fr): return e['fn'](st, fr)

    def e_Lambda(self, st, e, fr):
        env = {}
        for c in e['caps']:
            x = self.ev(st, c['init'], fr) if 'init' in c else fr.env.get(c['id'])
            if x is None: continue
            if c['byref']: env[c['id']] = x; continue
            v = self.load(st, x)
            if isinstance(v, VALUES): env[c['id']] = v; continue
            t = strip_ref(c['t'])
            loc = Loc(('H', next(self.tmp)), (), t)
            if v is not None: self.store(st, loc, v)
            env[c['id']] = loc
        return Closure(e, env, fr.this, fr.f.get('file', '?'))

    def apply(self, st, c, args):
        """calls a closure (or a function designator) on evaluated arguments"""
        if isinstance(c, Opq):
            for a in c.s.atoms():
                if a.kind == 'fun' and a.args[0] in self.P.fun: return self.call(st, self.P.fun[a.args[0]], None, list(args))
        if not isinstance(c, Closure): raise Unsupported('call of %r' % type(c))
        fs = [x for x in c.node['insts'] if len(x['params']) == len(args)]
        if not fs: raise Unsupported('generic lambda')
        def fits(f):
            n = 0
            for p, a in zip(f['params'], args):
                v = self.load(st, a)
                n += isinstance(v, M) == is_eig(p['t'])
            return n
        f = max(fs, key=fits)
        g = dict(f, file=c.file, q='lambda', n='lambda')
        self.calls += 1
        fr = Frame(g, c.this); fr.env.update(c.env)
        for p, a in zip(g['params'], args): self.bind(st, fr, p, a)
        return self.run_body(st, g, fr, c.this, False)

    def e_Bin(self, st, e, fr):
        op = e['op']
        if op == ',':
            self.ev(st, e['L'], fr); return self.ev(st, e['R'], fr)
        if op in ('&&', '||'):
            a = self.boolv(st, e['L'], fr)
            if op == '&&' and a.is0(): return ZERO
            if op == '||' and a.is1(): return ONE
            mk = FACTS.mark()
            for f in self.fact_of(a, 1 if op == '&&' else 0): FACTS.push(f)
            st2 = st.fork(a if op == '&&' else ONE - a)
            b = self.boolv(st2, e['R'], fr)
            FACTS.release(mk)
            if any(st2.mem.get(x) is not st.mem.get(x) for x in st2.mem if x in st.mem):
                m = self.merge(a if op == '&&' else ONE - a, st2, st); st.mem = m.mem
            b = alg.assume_in(b, a, 1 if op == '&&' else 0)
            return alg.b_and(a, b) if op == '&&' else alg.b_or(a, b)
        a = self.val(st, e['L'], fr); b = self.val(st, e['R'], fr)
        if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(op, a, b)
        if isinstance(a, M): a = a.elem(0, 0)
        if isinstance(b, M): b = b.elem(0, 0)
        if isinstance(a, Iter) or isinstance(b, Iter): return ext.iter_op(self, op, a, b)
        if op in ('&', '|', '^') and all(x.boolean for x in a.atoms() | b.atoms()) and not (a.const() or 0) > 1 and not (b.const() or 0) > 1:
            return alg.b_and(a, b) if op == '&' else alg.b_or(a, b) if op == '|' else a + b - 2*a*b
        if op in ('<<', '>>') and b.const() is not None and b.const() >= 0:
            if op == '<<': return a * 2**int(b.const())
            if alg.ge0(a):
                return S.of(int(a.const()) >> int(b.const())) if a.const() is not None else alg.uf('idiv', a, S.of(2**int(b.const())), integer=True)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            if is_int(e['t']):
                ca, cb = a.const(), b.const()
                if ca is not None and cb is not None and cb != 0: return S.of(int(ca / cb))
                if cb == 1: return a
                return alg.uf('idiv', a, b, integer=True)
            if b.is0(): return alg.uf('div0', a)
            return a / b
        if op == '%':
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and cb != 0:
                return S.of(int(ca) - int(ca / cb) * int(cb))
            return alg.uf('mod', a, b, integer=True)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return alg.cmp(op, a, b)
        return alg.uf('bin' + op, a, b, integer=True)

    def ptr_cmp(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ('==', '!='):
            r = ZERO; und = False
            for g, x in a.alts:
                for h, y in b.alts:
                    if (x is None) != (y is None): continue
                    if x is None or same(x, y): r = r + g * h
            return r if op == '==' else ONE - r
        sa = a.s if isinstance(a, Opq) else a if isinstance(a, S) else S.of(atom('ptr', (str(a),)))
        sb = b.s if isinstance(b, Opq) else b if isinstance(b, S) else S.of(atom('ptr', (str(b),)))
        return alg.uf('cmp' + op, sa, sb, boolean=True, integer=True, lb=0)

    def e_Assign(self, st, e, fr):
        if e['L'].get('t', {}).get('ptr'):
            r = self.val(st, e['R'], fr)
            l = self.ev(st, e['L'], fr)
            self.write(st, l, r); return l
        r = self.val(st, e['R'], fr)
        l = self.ev(st, e['L'], fr)
        op = e['op']
        if op:
            cur = self.load(st, l)
            if isinstance(cur, Iter):
                if op not in ('+', '+=', '-', '-='): raise Unsupported('iterator ' + op)
                r = Iter(cur.lv, cur.i + r if op[0] == '+' else cur.i - r, cur.rev)
                self.store(st, l, r); return l
            if op in ('+', '+='): r = cur + r
            elif op in ('-', '-='): r = cur - r
            elif op in ('*', '*='): r = cur * r
            elif op in ('/', '/='):
                r = alg.uf('idiv', cur, r, integer=True) if is_int(e['L']['t']) else cur / r
            else:
                if all(a.boolean for a in cur.atoms() | r.atoms()) and op in ('&', '&=', '|', '|='):
                    r = alg.b_and(cur, r) if op[0] == '&' else alg.b_or(cur, r)
                else: r = alg.uf('bin' + op, cur, r, integer=True)
        if is_int(e['L'].get('t', {'b': ''})) and isinstance(r, S) and not alg.all_int(r):
            r = alg.uf('trunc', r, integer=True) if r.const() is None else S.of(int(r.const()))
        self.store(st, l, r)
        return l

    def e_Cond(self, st, e, fr):
        c = self.boolv(st, e['c'], fr)
        if c.is1(): return self.ev(st, e['a'], fr)
        if c.is0(): return self.ev(st, e['b'], fr)
        a = st.fork(c); b = st.fork(ONE - c)
        mk = FACTS.mark()
        for f in self.fact_of(c, 1): FACTS.push(f)
        x = self.ev(a, e['a'], fr)
        FACTS.release(mk)
        for f in self.fact_of(c, 0): FACTS.push(f)
        y = self.ev(b, e['b'], fr)
        FACTS.release(mk)
        if not (isinstance(x, LV) and isinstance(y, LV)): x = self.load(a, x); y = self.load(b, y)
        m = self.merge(c, a, b); st.mem = m.mem
        if x is None: return y
        if y is None: return x
        return vite(c, x, y)

    def e_Assert(self, st, e, fr):
        n = len(self.obls)
        c = self.boolv(st, e['c'], fr)
        self.oblig('assert', c, '')
        for f in self.fact_of(c, 1): FACTS.push(f)
        return None

    def e_Index(self, st, e, fr):
        b = self.val(st, e['base'], fr); i = self.val(st, e['i'], fr)
        for x, y in ((b, i), (i, b)):
            if isinstance(x, Loc) and is_vec(x.t): return self.vec_method(st, x, '[]', [y], e)
            if isinstance(x, Iter): return self.at(x, y)
        raise Unsupported('array subscript')

    def e_New(self, st, e, fr):
        t = e['at']
        loc = Loc(('H', next(self.tmp)), (), t)
        if not getattr(self, 'deep_solver', False) and (t['b'].split('<')[0].endswith('QPOasesSolver') or t['b'].split('<')[0].endswith('QPSolver')):
            return Ptr([(ONE, loc)])
        if e.get('e'): self.init_into(st, loc, e['e'], fr)
        else: self.default_init(st, loc)
        return Ptr([(ONE, loc)])
    def e_Delete(self, st, e, fr):
        self.ev(st, e['e'], fr); return None
    def e_InitList(self, st, e, fr):
        if len(e['args']) == 1: return self.ev(st, e['args'][0], fr)
        loc = Loc(('T', next(self.tmp)), (), e['t'])
        self.init_into(st, loc, e, fr)
        return loc
    def e_Throw(self, st, e, fr):
        st.pc = ZERO; return None

    def e_Ctor(self, st, e, fr):
        t = strip_ref(e['t'])
        if is_eig(t) and t.get('e', '') not in ('Matrix', 'Array'):
            a = [self.ev(st, x, fr) for x in e['args']]
            if 'LU' in t.get('e', ''):
                return Solver(self.load(st, a[0]))
            if t.get('e') == 'Block' and len(a) in (2, 3, 5) and isinstance(a[0], LV):
                v = [self.load(st, x) for x in a[1:]]; m = self.load(st, a[0])
                if len(v) == 4: return View(a[0], *v)
            if e.get('copy') or len(a) == 1 or t.get('e') == 'Ref': return a[0]
            raise Unsupported('eigen ctor ' + t.get('e', ''))
        if e.get('copy') and len(e['args']) >= 1:
            x = self.ev(st, e['args'][0], fr)
            v = self.load(st, x)
            if isinstance(v, (S, M, Ptr, Opq) + VALUES): return v
            tmp = Loc(('T', next(self.tmp)), (), t); self.copy(st, tmp, v); return tmp
        if not (is_eig(t) or is_vec(t) or t['b'] in OWN_T or t.get('rec') or t['b'] == 'std::pair'):
            a = [self.ev(st, x, fr) for x in e['args']]
            if len(a) == 1: return a[0]
            return Opq(alg.uf('obj', t['b']))
        loc = Loc(('T', next(self.tmp)), (), t)
        self.ctor_call(st, loc, e, fr)
        if is_eig(t):
            v = self.read(st, loc); del st.mem[loc.path]; return v
        return loc

    def eig_ctor(self, st, loc, e, fr):
        t = loc.t
        args = [self.ev(st, x, fr) for x in e['args']]
        # trailing void* parameters of Eigen's converting constructors
        n = len(args)
        vals = [self.load(st, a) for a in args]
        r, c = t.get('r', -1), t.get('c', -1)
        if n == 0 or (n == 1 and vals[0] is None):
            self.default_init(st, loc); return
        if n == 1 and isinstance(args[0], Comma): vals = [self.load(st, args[0].lv)]
        if n >= 1 and isinstance(vals[0], M):
            v = vals[0]
            self.fixed_shape(t, v)
            self.store(st, loc, v); return
        while vals and not isinstance(vals[-1], S): vals.pop(); n -= 1   # defaulted dummy parameters
        if n == 0: self.default_init(st, loc); return
        if not all(isinstance(v, S) for v in vals): raise Unsupported('eigen ctor args %r' % (args,))
        fixed = r >= 0 and c >= 0
        if fixed and n == r * c and n > 1:
            self.store(st, loc, self.lit(vals, r, c)); return
        if not fixed and n == 1 and (c == 1 or r == 1):
            R, C = (vals[0], ONE) if c == 1 else (ONE, vals[0])
        elif not fixed and n == 2: R, C = vals
        elif fixed and n == 1 and r * c == 1: self.store(st, loc, M.scalar(vals[0])); return
        else: raise Unsupported('eigen ctor')
        name = '.'.join(str(x) for x in loc.path)
        self.store(st, loc, M.of(matom('undef', (name, next(self.tmp)), R, C, name='?' + name)))

    def fixed_shape(self, t, v):
        for d, k in ((v.r, 'r'), (v.c, 'c')):
            n = t.get(k, -1)
            if n is not None and n >= 0: self.shape(d, S.of(n), 'shape of fixed-size matrix')

    def lit(self, vals, r, c):
        m = M.zero(r, c)
        t = {}
        for i in range(r):
            for j in range(c):
                v = vals[i * c + j]
                if v.is0(): continue
                x = M.E(i, 1, r).mul(M.E(j, 1, c).T) if c > 1 else M.E(i, 1, r)
                if r == 1 and c == 1: x = M.scalar(1)
                m = m + M(S.of(r), S.of(c), x.t).scale(v)
        return m

    # ---------------------------------------------------------------- calls in expressions
    def handler(self, f):
        return self.summ.get(f['id']) or self.summ.get(f['q']) or self.summ.get((f.get('cls', '').split('<')[0], f['n']))

    def e_Call(self, st, e, fr):
        f = e.get('f')
        if f is None:
            c = self.val(st, e['fn'], fr) if 'fn' in e else None
            return self.apply(st, c, [self.ev(st, a, fr) for a in e['args']])
        if f.get('noreturn') or f['n'] in ('abort', 'exit', '__assert_fail'):
            st.pc = ZERO; return None
        obj = None
        if 'obj' in e:
            obj = self.ev(st, e['obj'], fr)
            if e.get('arrow'):
                if not isinstance(obj, Ptr): obj = self.load(st, obj)
                if isinstance(obj, Opq): return self.opaque_call(st, e, fr, obj)
                obj = self.deref(obj)
            elif isinstance(obj, Ptr): obj = self.deref(obj)
        h = self.handler(f)
        if h:
            args = [self.ev(st, a, fr) for a in e['args']]
            return h(self, st, obj, args, e, fr)
        g = self.P.fun.get(f['id'])
        if g is not None and g.get('body') is not None:
            args = [self.ev(st, a, fr) for a in e['args']]
            args = self.value_args(st, g, args)
            if isinstance(obj, Multi) and not f.get('static'):
                return self.multi_call(st, g, obj, args)
            return self.call(st, g, obj, args)
        return self.extern_call(st, e, f, obj, fr)

    def value_args(self, st, g, args):
        out = []
        for p, a in zip(g['params'], args):
            out.append(a)
        return out

    def multi_call(self, st, g, obj, args):
        alts = obj.alts
        res = []
        rest = ONE
        for k, (h, y) in enumerate(alts):
            gg = rest if k == len(alts) - 1 else h
            s2 = st.fork(gg)
            v = self.call(s2, g, y, list(args))
            res.append((gg, s2, v)); rest = rest * (ONE - h)
        g0, s, v = res[-1]
        for h, s2, v2 in reversed(res[:-1]):
            s = self.merge(h, s2, s); v = vite(h, v2, v) if (v is not None or v2 is not None) else None
        st.mem = s.mem
        return v

    def opaque_call(self, st, e, fr, obj):
        args = [self.load(st, self.ev(st, a, fr)) for a in e['args']]
        return self.opaque_result(e, [obj] + args)

    def opaque_result(self, e, args):
        if any(isinstance(a, VALUES + (Comma, LV)) for a in args): raise Unsupported('call of ' + (e['f']['q'] if e.get('f') else '?'))
        self.unknown.add(e['f']['q'] if e.get('f') else '?')
        t = e['t']
        ks = tuple(a if isinstance(a, (S, M)) else a.s if isinstance(a, Opq) else str(type(a)) for a in args)
        nm = 'ext:' + (e['f']['q'] if e.get('f') else '?')
        if is_scalar(t): return alg.uf(nm, *ks, boolean=is_bool(t), integer=is_int(t) or is_bool(t), lb=0 if is_bool(t) else None)
        if is_eig(t) and t.get('r', -1) >= 0 and t.get('c', -1) >= 0: return alg.ufm(nm, t['r'], t['c'], *ks)
        return Opq(alg.uf(nm, *ks))

    def e_OpCall(self, st, e, fr):
        f = e.get('f') or {'q': '?', 'id': '?', 'n': '?'}
        op = e['op']
        g = self.P.fun.get(f['id'])
        if g is not None and g.get('body') is not None:
            args = [self.ev(st, a, fr) for a in e['args']]
            if e.get('mem'):
                o = args[0]
                if isinstance(o, Ptr): o = self.deref(o)
                return self.call(st, g, o, args[1:])
            return self.call(st, g, None, args)
        a = [self.ev(st, x, fr) for x in e['args']]
        if op in ('->', '*') and len(a) == 1:
            x = a[0]
            if isinstance(x, Loc) and x.t['b'] in OWN_T:
                return Ptr([(ONE, Loc(x.path + ('*',), x.idx, x.t['a'][0]))]) if op == '->' else Loc(x.path + ('*',), x.idx, x.t['a'][0])
            y = self.load(st, x) if isinstance(x, (IterVar, Iter)) else None
            if isinstance(y, Iter): return self.at(y) if op == '*' else Ptr([(ONE, self.at(y))])
            if isinstance(x, Multi): return self.multi([(gg, Loc(y.path + ('*',), y.idx, y.t['a'][0])) for gg, y in x.alts])
        if op in ('++', '--') and isinstance(a[0], IterVar):
            return self.step_iter(st, a[0], self.load(st, a[0]), op if len(a) == 1 else 'post' + op)
        if op == '<<':
            if isinstance(a[0], Opq) or (isinstance(a[0], Loc) and a[0].t['b'] not in ('Eigen',)): return a[0]
            if isinstance(a[0], M):
                tmp = Loc(('T', next(self.tmp)), (), dict(strip_ref(e['args'][0]['t']), e='Matrix')); self.store(st, tmp, a[0]); a[0] = tmp
            c = Comma(a[0]); self.comma(st, c, self.load(st, a[1])); return c
        if op == ',':
            if isinstance(a[0], Comma):
                self.comma(st, a[0], self.load(st, a[1])); return a[0]
            return a[1]
        if op in ('()', '[]'):
            x = a[0]
            if isinstance(x, Ptr): x = self.deref(x)
            lv = x
            if isinstance(x, Loc) and is_ref(x.t): lv = x = self.deref(self.read(st, x))
            base = self.multi_first(x)
            if isinstance(x, Closure): return self.apply(st, x, a[1:])
            if isinstance(x, (Iter, IterVar)): return self.at(self.load(st, x), self.load(st, a[1]))
            if isinstance(base, Loc) and is_vec(base.t): return self.vec_method(st, x, '[]', a[1:], e)
            if isinstance(x, (M, S)) or isinstance(x, LV):
                m = self.load(st, x)
                if isinstance(m, M):
                    ix = [self.load(st, y) for y in a[1:]]
                    if len(ix) == 1:
                        if m.c.is1(): i, j = ix[0], ZERO
                        elif m.r.is1(): i, j = ZERO, ix[0]
                        else: i, j = ix[0], ZERO
                    else: i, j = ix
                    self.oblig('index', alg.b_not(alg.lt0(i)) * alg.lt0(i - m.r) * alg.b_not(alg.lt0(j)) * alg.lt0(j - m.c),
                               'element (%s,%s) of a %s x %s matrix' % (i, j, m.r, m.c), (i, j, m.r, m.c))
                    return Elem(x if isinstance(x, LV) else m, i, j)
            if isinstance(x, Opq):
                if any(z.kind == 'fun' for z in x.s.atoms()): return self.apply(st, x, a[1:])
                return self.opaque_result(e, [self.load(st, y) for y in a])
            raise Unsupported('operator%s on %r' % (op, type(x)))
        if op == '=':
            l = a[0]; r = a[1]
            if isinstance(l, Ptr): l = self.deref(l)
            t = l.t if isinstance(l, Loc) else None
            if isinstance(l, Loc) and not (is_eig(t) or is_scalar(t)):
                if t['b'] in OWN_T: self.own_reset(st, l, r); return l
                if isinstance(r, Opq): return l
                self.store(st, l, r); return l
            v = self.load(st, r)
            if isinstance(v, Comma): v = self.load(st, v)
            if isinstance(v, Ptr) and t is not None: self.write(st, l, v); return l
            if isinstance(v, S) and not isinstance(l, Elem) and is_eig(e['t']) and e['t'].get('arr'):
                m = self.load(st, l)
                if isinstance(m, M): v = M.const(m.r, m.c, v)
            if t is not None and is_eig(t): self.fixed_shape(t, v if isinstance(v, M) else M.scalar(v))
            self.store(st, l, v); return l
        if op in ('+=', '-=', '*=', '/='):
            l = a[0]; cur = self.load(st, l); v = self.load(st, a[1])
            if isinstance(cur, Iter):
                self.store(st, l, Iter(cur.lv, cur.i + v if op == '+=' else cur.i - v, cur.rev)); return l
            if isinstance(cur, M) and e['args'][0]['t'].get('arr'):
                self.store(st, l, self.array_op(op[0], cur, v)); return l
            if not isinstance(cur, (S, M)) or not isinstance(v, (S, M)): raise Unsupported('operator' + op)
            if isinstance(cur, M) != isinstance(v, M) and op in ('+=', '-='):
                if isinstance(v, S): v = M.scalar(v)
            if op == '+=': r = cur + v
            elif op == '-=': r = cur - v
            elif op == '*=': r = cur.mul(v) if isinstance(cur, M) and isinstance(v, M) else cur * v
            else: r = cur * (ONE / v)
            self.store(st, l, r); return l
        vs = [self.load(st, x) for x in a]
        vs = [self.load(st, x) if isinstance(x, Comma) else x for x in vs]
        if any(isinstance(x, Iter) for x in vs) and len(vs) == 2: return ext.iter_op(self, op, *vs)
        if any(x['t'].get('arr') for x in e['args']) and all(isinstance(x, (M, S)) for x in vs):
            if len(vs) == 2: return self.array_op(op, *vs)
            if op == '!': return alg.elementwise(alg.b_not, vs[0])
        if all(isinstance(x, (M, S)) for x in vs):
            if len(vs) == 1:
                if op == '-': return -vs[0]
                if op == '+': return vs[0]
            x, y = vs
            if op == '+': return (x if isinstance(x, M) else M.scalar(x)) + y if isinstance(y, M) else x + y
            if op == '-': return (x if isinstance(x, M) else M.scalar(x)) - y if isinstance(y, M) else x - y
            if op == '*':
                if isinstance(x, M) and isinstance(y, M): return x.mul(y)
                if isinstance(x, M): return x.scale(y)
                if isinstance(y, M): return y.scale(x)
                return x * y
            if op == '/': return x.scale(ONE / y) if isinstance(x, M) else x / y
            if op in ('==', '!='):
                r = self.mat_eq(x, y)
                return r if op == '==' else ONE - r
        return self.opaque_result(e, vs)

    def multi_first(self, x):
        return x.alts[0][1] if isinstance(x, Multi) else x

    def mat_eq(self, x, y):
        if isinstance(x, M) and isinstance(y, M):
            if x.same(y): return ONE
            return alg.uf('mateq', x, y, boolean=True, integer=True, lb=0)
        return alg.eq0(x - y)

    def comma(self, st, c, x):
        """one more item of a comma initialiser, placed as Eigen does: left to right, then the next row(s)"""
        m = self.load(st, c.lv)
        c.items.append(x)
        r, k = m.r.const(), m.c.const()
        if r is not None and k is not None and len(c.items) == r * k and all(isinstance(y, S) for y in c.items):
            self.store(st, c.lv, self.lit(c.items, int(r), int(k))); return
        b = x if isinstance(x, M) else M.scalar(x)
        if len(c.items) == 1: c.row = c.col = ZERO; c.rows = b.r
        elif alg.eq(c.col, m.c): c.row = c.row + c.rows; c.col = ZERO; c.rows = b.r
        for lim, end, what in ((m.c, c.col + b.c, 'columns'), (m.r, c.row + b.r, 'rows')):
            if not alg.ge0(lim - end):
                if alg.gt0(end - lim): raise Unsupported('comma initialiser: %s of %s %s' % (end, lim, what))
                self.oblig('shape', alg.b_not(alg.lt0(lim - end)), 'comma initialiser: %s of %s %s' % (end, lim, what))
        if not c.rows == b.r and not alg.eq(c.rows, b.r): self.oblig('shape', alg.eq0(c.rows - b.r), 'comma initialiser: blocks of %s and %s rows' % (c.rows, b.r))
        self.store(st, c.lv if c.row.is0() and c.col.is0() and b.r == m.r and b.c == m.c else View(c.lv, c.row, c.col, b.r, b.c), b)
        c.col = c.col + b.c

    def array_op(self, op, x, y):
        """coefficient-wise operators of Eigen arrays"""
        def one(f):
            r = x if isinstance(x, M) else y
            return alg.elementwise(f, x if isinstance(x, M) else M.const(r.r, r.c, x), y if isinstance(y, M) else M.const(r.r, r.c, y))
        if op in ('+', '-') and isinstance(x, M) and isinstance(y, M): return x + y if op == '+' else x - y
        if op == '*' and isinstance(x, M) != isinstance(y, M): return x.scale(y) if isinstance(x, M) else y.scale(x)
        if op == '/' and isinstance(y, S): return x.scale(ONE / y)
        if op == '+': return one(lambda a, b: a + b)
        if op == '-': return one(lambda a, b: a - b)
        if op == '*': return one(lambda a, b: a * b)
        if op == '/': return one(lambda a, b: a / b)
        if op in ('<', '>', '<=', '>=', '==', '!='): return one(lambda a, b: alg.cmp(op, a, b))
        if op in ('&&', '||'): return one(alg.b_and if op == '&&' else alg.b_or)
        raise Unsupported('array operator ' + op)

    # ---------------------------------------------------------------- external calls
    def extern_call(self, st, e, f, obj, fr):
        n = f['n']; cls = f.get('cls', '')
        if obj is not None:
            o = obj
            if isinstance(o, Loc) and is_ref(o.t): o = self.deref(self.read(st, o))
            base = self.multi_first(o)
            if isinstance(base, Loc) and is_vec(base.t):
                args = [self.ev(st, a, fr) for a in e['args']]
                return self.vec_method(st, o, n, args, e)
            if isinstance(base, Loc) and base.t['b'] in OWN_T:
                args = [self.load(st, self.ev(st, a, fr)) for a in e['args']]
                if n == 'reset':
                    if args and isinstance(args[0], Ptr): self.own_reset(st, o, args[0])
                    return None
                if n == 'get': return Ptr([(ONE, Loc(o.path + ('*',), o.idx, o.t['a'][0]))])
            if isinstance(o, Comma):
                if n == 'finished': return o.lv
                raise Unsupported('comma initialiser: ' + n)
            if isinstance(o, Axis): return ext.axis(self, o, n)
            if isinstance(o, (Iter, IterVar)) and n == 'base' and not self.load(st, o).rev: return o
            if isinstance(o, Solver):
                if n == 'inverse': return alg.inverse(o.m)
                if n == 'solve': return alg.inverse(o.m).mul(self.load(st, self.ev(st, e['args'][0], fr)))
            if isinstance(o, (M, S)) or (isinstance(o, LV) and isinstance(self.load(st, o), (M, S))):
                args = [self.ev(st, a, fr) for a in e['args']]
                return self.eig_method(st, o, n, args, e, f)
            args = [self.load(st, self.ev(st, a, fr)) for a in e['args']]
            return self.opaque_result(e, [Opq(ZERO)] + args)
        args = [self.ev(st, a, fr) for a in e['args']]
        vs = [self.load(st, a) for a in args]
        q = f['q']
        r = ext.std_call(self, st, e, f, args, vs, fr)
        if r is not NotImplemented: return r
        if n == 'LinSpaced' and 'Eigen' in q:
            v = [x for x in vs if isinstance(x, S)]
            if len(v) == 3:
                i = S.of(atom('lw', ('ls',), name='i', integer=True, lb=0))
                return alg.msum(next(iter(i.atoms())), ZERO, v[0], M.E(i, ONE, v[0]).scale(v[1] + (v[2] - v[1]) * i / (v[0] - 1)))
        if n in ('Zero', 'Constant', 'Identity', 'Ones', 'UnitX', 'UnitY', 'UnitZ', 'Unit') and 'Eigen' in cls + q:
            return self.eig_static(n, vs, e, f)
        n = CMATH.get(n, n)
        if n == 'hypot' and len(vs) == 2: return alg.sqrt(vs[0] * vs[0] + vs[1] * vs[1])
        if n == 'sqrt' and len(vs) == 1 and isinstance(vs[0], S): return alg.sqrt(vs[0])
        if n in MATH1 and len(vs) == 1 and isinstance(vs[0], M):
            return alg.elementwise(alg.sqrt if n == 'sqrt' else lambda x: alg.uf(n, x), vs[0])
        if n in ('abs', 'fabs') and len(vs) == 1 and isinstance(vs[0], M): return alg.elementwise(self.f_abs, vs[0])
        if n in MATH1 and len(vs) == 1 and isinstance(vs[0], S):
            c = vs[0].const()
            if c == 0: return {'cos': ONE, 'exp': ONE, 'cosh': ONE}.get(n, ZERO) if n not in ('acos', 'log') else alg.uf(n, vs[0])
            if c == 1 and n == 'sqrt': return ONE
            return alg.uf(n, vs[0])
        if n in ('abs', 'fabs') and len(vs) == 1 and isinstance(vs[0], S): return self.f_abs(vs[0])
        if n in ('pow',):
            c = vs[1].const()
            if c is not None and c.denominator == 1 and abs(c) < 20:
                return vs[0] ** int(c) if c >= 0 else (vs[0] ** int(-c)).recip()
            if c is not None and c.denominator == 2 and isinstance(vs[0], S): return alg.sqrt(vs[0]) ** int(2*c) if c > 0 else (alg.sqrt(vs[0]) ** int(-2*c)).recip()
            return alg.uf('pow', *vs)
        if n in ('max', 'fmax') and len(vs) == 2 and all(isinstance(v, S) for v in vs):
            return ite(alg.lt0(vs[0] - vs[1]), vs[1], vs[0])
        if n in ('min', 'fmin') and len(vs) == 2 and all(isinstance(v, S) for v in vs):
            return ite(alg.lt0(vs[1] - vs[0]), vs[1], vs[0])
        if n in ('floor', 'ceil', 'round', 'trunc') and len(vs) == 1:
            if alg.all_int(vs[0]): return vs[0]
            return alg.uf(n, vs[0], integer=True)
        if n == 'quiet_NaN': return S.of(atom('nan', (), name='nan'))
        if n in ('infinity', 'epsilon', 'lowest', 'dummy_precision') or (n in ('max', 'min') and not vs): return alg.uf(q.split('<')[0] + '::' + n)
        if n in ('move', 'forward') and len(args) == 1: return args[0]
        if n == 'swap' and len(args) == 2:
            a, b = self.load(st, args[0]), self.load(st, args[1])
            if isinstance(a, (S, M, Iter, Ptr)): self.store(st, args[0], b); self.store(st, args[1], a); return None
            if isinstance(a, Loc) and isinstance(b, Loc):
                tmp = Loc(('T', next(self.tmp)), (), a.t)
                self.copy(st, tmp, a); self.copy(st, a, b); self.copy(st, b, tmp); return None
        if n == 'pi': return S.of(atom('pi', (), name='pi'))
        if n == 'fill' and len(args) == 3: pass
        if all(isinstance(v, (S, M, Opq)) for v in vs):
            return self.opaque_result(e, vs)
        return self.opaque_result(e, vs)

    def f_abs(self, v):
        c = v.const()
        if c is not None: return S.of(abs(c))
        sg = alg.sign(v)
        if sg in ('+', '>=0', '0'): return v
        if sg in ('-', '<=0'): return -v
        items = sorted(v.t.items())
        if items[-1][1] < 0: v = -v
        return alg.uf('abs', v, lb=0, integer=alg.all_int(v))

    def eig_static(self, n, vs, e, f):
        t = e['t']
        # dimensions: explicit arguments or the class's static ones
        r = c = None
        cl = f.get('clst') or {}
        tt = e['t']
        k = [v for v in vs if isinstance(v, S)]
        rr, cc = self.static_dims(f, e)
        if n == 'Constant': dims, val = k[:-1], k[-1]
        else: dims, val = k, None
        if len(dims) == 2: R, C = dims
        elif len(dims) == 1:
            if n == 'Unit': R, C = S.of(rr), S.of(cc)
            else: R, C = (dims[0], ONE) if cc == 1 or cc is None else (ONE, dims[0])
        else:
            if rr is None: raise Unsupported('static dims')
            R, C = S.of(rr), S.of(cc)
        if n == 'Zero': return M.zero(R, C)
        if n == 'Ones': return M.const(R, C, 1)
        if n == 'Constant': return M.const(R, C, val)
        if n == 'Identity': return M.identity(R, C)
        if n.startswith('Unit'):
            i = {'UnitX': 0, 'UnitY': 1, 'UnitZ': 2}.get(n)
            return M.E(k[0] if i is None else i, 1, R)
        raise Unsupported(n)

    def static_dims(self, f, e):
        """compile-time dimensions of the nullary expression"""
        t = e['t']
        r, c = t.get('sr'), t.get('sc')
        if r is None: return None, None
        return (r if r >= 0 else None), (c if c >= 0 else None)

    def eig_method(self, st, o, n, args, e, f):
        m = self.load(st, o)
        if isinstance(m, S): m = M.scalar(m)
        vs = [self.load(st, a) for a in args]
        targs = [x for x in (f.get('targs') or []) if isinstance(x, int)]
        if n == 'rows': return m.r
        if n == 'cols': return m.c
        if n == 'size':
            return m.r if m.c.is1() else m.c if m.r.is1() else m.r * m.c
        if n == 'transpose': return TView(o) if isinstance(o, LV) else m.T
        if n in ('noalias', 'eval', 'derived', 'matrix', 'array', 'template', 'const_cast_derived', 'adjoint') and n != 'adjoint':
            return o
        if n == 'adjoint': return m.T
        if n == 'cast': return m
        if n == 'block':
            if len(vs) == 4: r0, c0, nr, nc = vs
            else: r0, c0 = vs[:2]; nr, nc = [S.of(x) for x in targs[:2]]
        elif n == 'segment':
            s0 = vs[0]; ln = vs[1] if len(vs) > 1 else S.of(targs[0])
            r0, c0, nr, nc = (s0, ZERO, ln, ONE) if m.c.is1() else (ZERO, s0, ONE, ln)
        elif n in ('head', 'tail'):
            ln = vs[0] if vs else S.of(targs[0])
            s0 = ZERO if n == 'head' else (m.r if m.c.is1() else m.c) - ln
            r0, c0, nr, nc = (s0, ZERO, ln, ONE) if m.c.is1() else (ZERO, s0, ONE, ln)
        elif n == 'row': r0, c0, nr, nc = vs[0], ZERO, ONE, m.c
        elif n == 'col': r0, c0, nr, nc = ZERO, vs[0], m.r, ONE
        elif n == 'topRows': r0, c0, nr, nc = ZERO, ZERO, (vs or [S.of(targs[0])])[0], m.c
        elif n == 'bottomRows': k = (vs or [S.of(targs[0])])[0]; r0, c0, nr, nc = m.r - k, ZERO, k, m.c
        elif n == 'leftCols': r0, c0, nr, nc = ZERO, ZERO, m.r, (vs or [S.of(targs[0])])[0]
        elif n == 'rightCols': k = (vs or [S.of(targs[0])])[0]; r0, c0, nr, nc = ZERO, m.c - k, m.r, k
        elif n == 'middleRows': r0, c0, nr, nc = vs[0], ZERO, vs[1], m.c
        elif n == 'middleCols': r0, c0, nr, nc = ZERO, vs[0], m.r, vs[1]
        elif n == 'topLeftCorner': r0, c0, nr, nc = ZERO, ZERO, vs[0], vs[1]
        elif n == 'topRightCorner': r0, c0, nr, nc = ZERO, m.c - vs[1], vs[0], vs[1]
        elif n == 'bottomLeftCorner': r0, c0, nr, nc = m.r - vs[0], ZERO, vs[0], vs[1]
        elif n == 'bottomRightCorner': r0, c0, nr, nc = m.r - vs[0], m.c - vs[1], vs[0], vs[1]
        else: r0 = None
        if r0 is not None:
            self.oblig('block', alg.b_not(alg.lt0(r0)) * alg.b_not(alg.lt0(c0)) * alg.b_not(alg.lt0(nr)) * alg.b_not(alg.lt0(nc)) *
                       alg.b_not(alg.lt0(m.r - r0 - nr)) * alg.b_not(alg.lt0(m.c - c0 - nc)),
                       'block (%s,%s,%s,%s) of a %s x %s matrix' % (r0, c0, nr, nc, m.r, m.c), (r0, c0, nr, nc, m.r, m.c))
            return View(o if isinstance(o, LV) else m, r0, c0, nr, nc)
        if n in ('x', 'y', 'z', 'w') and not vs:
            return Elem(o if isinstance(o, LV) else m, 'xyzw'.index(n), 0)
        if n in ('coeff', 'coeffRef'):
            i, j = (vs + [ZERO])[:2]
            return Elem(o if isinstance(o, LV) else m, i, j)
        def dims():
            k = [v for v in vs]
            if len(k) >= 2: return k[0], k[1]
            if len(k) == 1: return (k[0], ONE) if m.c.is1() or not m.r.is1() else (ONE, k[0])
            return m.r, m.c
        if n == 'setZero':
            R, C = dims(); self.put_whole(st, o, M.zero(R, C)); return o
        if n == 'setOnes':
            R, C = dims(); self.put_whole(st, o, M.const(R, C, 1)); return o
        if n == 'setIdentity':
            R, C = dims(); self.put_whole(st, o, M.identity(R, C)); return o
        if n == 'fill': self.put_whole(st, o, M.const(m.r, m.c, vs[0])); return o
        if n == 'setConstant':
            v = vs[-1]; k = vs[:-1]
            R, C = (k[0], k[1]) if len(k) == 2 else (k[0], ONE) if k else (m.r, m.c)
            self.put_whole(st, o, M.const(R, C, v)); return o
        if n == 'resize':
            R, C = dims()
            if R == m.r and C == m.c: return None
            self.put_whole(st, o, self.resized(m, R, C)); return None
        if n == 'conservativeResize':
            R, C = dims()
            if R == m.r and C == m.c: return None
            self.put_whole(st, o, self.cresized(m, R, C)); return None
        if n == 'swap':
            b = vs[0]; self.put_whole(st, o, b); self.put_whole(st, args[0], m); return None
        if n in ('diagonal',) and not vs:
            return DView(o) if isinstance(o, LV) else self.diag_of(m)
        if n in ('rowwise', 'colwise'): return Axis(m, n == 'rowwise')
        if n == 'dot':
            y = vs[0]
            return (m.T.mul(y) if m.c.is1() else m.mul(y if y.c.is1() else y.T)).to_scalar()
        geom = getattr(self, 'geom', None)
        if geom and n in geom: return geom[n](m, *[v for v in vs if isinstance(v, M)])
        def lift(v): return v if isinstance(v, M) else M.const(m.r, m.c, v)
        def total(x):
            if not x.r.is1(): x = M.of(alg.ones(x.r)).T.mul(x)
            if not x.c.is1(): x = x.mul(M.of(alg.ones(x.c)))
            return x.to_scalar()
        def square(x):
            return x.T.mul(x).to_scalar() if x.c.is1() else x.mul(x.T).to_scalar() if x.r.is1() else total(alg.elementwise(lambda a: a * a, x))
        if n == 'squaredNorm': return square(m)
        if n in ('norm', 'stableNorm'): return alg.sqrt(square(m))
        if n in ('normalized', 'normalize'):
            v = m.scale(ONE / alg.sqrt(square(m)))
            if n == 'normalized': return v
            self.put_whole(st, o, v); return None
        if n == 'sum': return total(m)
        if n == 'mean': return total(m) / (m.r * m.c)
        if n == 'trace': return total(self.diag_of(m))
        if n in ('maxCoeff', 'minCoeff', 'prod') and not vs:
            a, b = m.r.const(), m.c.const()
            if a is not None and b is not None and 0 < a * b <= 9:
                xs = [m.elem(i, j) for i in range(int(a)) for j in range(int(b))]; r = xs[0]
                for x in xs[1:]: r = r * x if n == 'prod' else ite(alg.lt0(r - x) if n == 'maxCoeff' else alg.lt0(x - r), x, r)
                return r
            return alg.uf('eigm.' + n, m)
        if n == 'determinant': return alg.uf('eigm.' + n, m)
        if n == 'isZero' and not vs and not m.t: return ONE
        if n in ('isApprox', 'isZero', 'isIdentity', 'allFinite', 'hasNaN', 'isOnes', 'isConstant'):
            return alg.uf('eigm.' + n, m, *[v for v in vs if isinstance(v, (S, M))], boolean=True, integer=True, lb=0)
        arr = (e.get('obj') or {}).get('t', {}).get('arr')
        CW2 = {'cwiseMin': lambda a, b: ite(alg.lt0(b - a), b, a), 'cwiseMax': lambda a, b: ite(alg.lt0(a - b), b, a),
               'cwiseProduct': lambda a, b: a * b, 'cwiseQuotient': lambda a, b: a / b}
        CW1 = {'cwiseAbs': self.f_abs, 'cwiseAbs2': lambda a: a * a, 'cwiseSqrt': alg.sqrt, 'cwiseInverse': lambda a: ONE / a}
        if arr: CW2.update({'min': CW2['cwiseMin'], 'max': CW2['cwiseMax']})
        if arr: CW1.update({'abs': self.f_abs, 'abs2': CW1['cwiseAbs2'], 'square': CW1['cwiseAbs2'], 'cube': lambda a: a * a * a, 'sqrt': alg.sqrt, 'inverse': CW1['cwiseInverse']})
        if arr: CW1.update({k: (lambda a, k=k: alg.uf(k, a)) for k in MATH1 if k != 'sqrt'})
        if n in CW2 and len(vs) >= 1 and isinstance(vs[0], (S, M)): return alg.elementwise(CW2[n], m, lift(vs[0]))
        if n in CW1 and not vs: return alg.elementwise(CW1[n], m)
        if n == 'pow' and arr and vs[0].const() is not None and vs[0].const().denominator == 1 and vs[0].const() >= 0: return alg.elementwise(lambda a: a ** int(vs[0].const()), m)
        if n == 'select' and len(vs) == 2:
            return alg.elementwise(lambda c, a, b: ite(c, a, b), m, lift(vs[0]), lift(vs[1]))
        if n in ('unaryExpr', 'binaryExpr'):
            def f(*x):
                s2 = st.fork(); r = self.load(s2, self.apply(s2, vs[-1], list(x)))
                if any(st.mem.get(k) is not v for k, v in s2.mem.items() if k in st.mem): raise Unsupported('unaryExpr with effects')
                return r
            return alg.elementwise(f, m, *[v for v in vs[:-1]])
        if n in ('all', 'any', 'count') and not vs:
            k = total(m)
            return k if n == 'count' else alg.eq0(k - m.r * m.c) if n == 'all' else alg.b_not(alg.eq0(k))
        if n == 'inverse': return alg.inverse(m)
        if n == 'cross':
            a = [m.elem(k, 0) for k in range(3)]; b = [vs[0].elem(k, 0) for k in range(3)]
            return self.lit([a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]], 3, 1)
        if n == 'asDiagonal': return alg.diagm(m)
        if n == 'data': return Ptr([(ONE, o if isinstance(o, LV) else None)])
        if n == 'value': return m.elem(0, 0)
        if n in ('begin', 'cbegin', 'end', 'cend'): raise Unsupported('Eigen iterators')
        self.unknown.add('Eigen ' + n)
        t = e['t']
        if is_scalar(t): return alg.uf('eig.' + n, m, *[v for v in vs if isinstance(v, (S, M))], boolean=is_bool(t), integer=is_int(t) or is_bool(t), lb=0 if is_bool(t) else None)
        raise Unsupported('Eigen method ' + n)

    def put_whole(self, st, o, v):
        if isinstance(o, View): 
            self.store(st, o, M(o.nr, o.nc, v.t)) if True else None
        else: self.store(st, o, v)

    def resized(self, m, R, C):
        """contents after resize: unspecified, unless the sizes are provably equal"""
        same_ = alg.eq0(m.r - R) * alg.eq0(m.c - C)
        if same_.is1(): return m
        u = M.of(matom('undef', ('resize', m, R, C), R, C, name='?resized'))
        if R.is0() or C.is0(): u = M.zero(R, C)
        return u

    def cresized(self, m, R, C):
        """the common leading part is kept, what is new is unspecified"""
        if R == m.r and C == m.c: return m
        dr = R - m.r; dc = C - m.c
        gr, sr, gc, sc = alg.ge0(dr), alg.ge0(-dr), alg.ge0(dc), alg.ge0(-dc)
        if not ((gr or sr) and (gc or sc)): return M.of(matom('undef', ('cresize', m, R, C), R, C, name='?conservativeResize'))
        kr = R if sr else m.r; kc = C if sc else m.c
        keep = m.block(ZERO, ZERO, kr, kc)
        if kr == R and kc == C: return keep
        out = M.zero(R, C)
        def put(r0, c0, nr, nc, v):
            nonlocal out
            out = out + M.E(r0, nr, R).mul(v).mul(M.E(c0, nc, C).T)
        put(ZERO, ZERO, kr, kc, keep)
        if not alg.eq0(R - kr).is1(): put(kr, ZERO, R - kr, kc, M.of(matom('undef', ('cresize-rows', m, R, C), R - kr, kc, name='?conservativeResize')))
        if not alg.eq0(C - kc).is1(): put(ZERO, kc, R, C - kc, M.of(matom('undef', ('cresize-cols', m, R, C), R, C - kc, name='?conservativeResize')))
        return out


from . import ext
