"""Loop summaries.

A loop is evaluated once on an abstract iteration (every variable that the body changes is a fresh head
value).  When the loop is counted, the value of each changed variable at iteration k is guessed (constant,
last value, running sum / element-wise write) and the guess is verified by induction in the algebra.  What
cannot be put in closed form becomes a `fold` term carrying the transfer function of the loop."""
import itertools
from . import alg
from .alg import S, M, ZERO, ONE, atom, matom, FACTS, ite, subst, free_atoms
from .interp import (Loc, LV, Ptr, Opq, State, Unsupported, ph, is_int, is_bool, is_scalar, vite, same, Multi)

_base = itertools.count()
_w = itertools.count()

class Endless(Exception):
    """a loop whose condition stays decided and true"""

def skey(k):
    return str(k[2:]) if k[0] == 'L' else str(k)

def depth_of(path): return sum(1 for c in path if c == '[]')

class Head:
    """fresh head value of one leaf"""
    def __init__(self, key, v0, t, dims):
        self.key = key; self.v0 = v0; self.d = depth_of(key); self.t = t
        self.base = atom('lhb', (next(_base),), name='h')
        phs = tuple(S.of(ph(i)) for i in range(self.d))
        nm = str(key[-1]) if key[0] != 'L' else str(key[3] if len(key) > 3 else key[-1])
        if isinstance(v0, S):
            b = all(a.boolean for a in v0.atoms()) and (is_bool(t) if t else False)
            i = alg.all_int(v0) and (is_int(t) or is_bool(t)) if t else alg.all_int(v0)
            if t and is_int(t): i = True
            self.val = S.of(atom('lh', (self.base,) + phs, name='h:' + nm, boolean=b, integer=i or b,
                                 lb=0 if b or key[-1] in ('#len', '#cap') else None))
            self.parts = [('v', self.base, v0)]
        elif isinstance(v0, M):
            r, c = v0.r, v0.c
            self.parts = [('v', self.base, v0)]
            if dims:
                self.br = atom('lhb', (next(_base),)); self.bc = atom('lhb', (next(_base),))
                r = S.of(atom('lh', (self.br,) + phs, name='h:%s.rows' % nm, integer=True, lb=0))
                c = S.of(atom('lh', (self.bc,) + phs, name='h:%s.cols' % nm, integer=True, lb=0))
                if v0.r.const() == 1 and not dims & 1: r = v0.r
                if not dims & 2: c = v0.c
                if not dims & 1: r = v0.r
                if dims & 1: self.parts.append(('r', self.br, v0.r))
                if dims & 2: self.parts.append(('c', self.bc, v0.c))
            self.val = M.of(matom('lh', (self.base,) + phs, r, c, name='h:' + nm))
        else:
            self.val = v0; self.parts = []

def _get(I, mem, k):
    v = mem.get(k)
    if v is None and (k[0] not in ('L', 'T') or '[]' in k): v = I.init_value(k, I.types[k])
    return v

def _block(b): return [] if b is None else list(b['b']) if b['k'] == 'Block' else [b]
def _is_break(x): x = _block(x); return len(x) == 1 and x[0]['k'] == 'Break'
def _true(I, c): return c is None or c.get('k') in ('Bool', 'Lit', 'Int') and str(c.get('v')) in ('True', 'true', '1')
def _continues(x):
    if isinstance(x, list): return any(_continues(y) for y in x)
    if not isinstance(x, dict): return False
    if x.get('k') == 'Continue': return True
    if x.get('k') in ('For', 'While', 'Do', 'RangeFor', 'Lambda'): return False
    return any(_continues(y) for k, y in x.items() if k not in ('t', 'fn'))

def normal(I, s):
    """while (a) { if (b) break; rest } is while (a && !b) rest; while (true) { rest; if (b) break; } is do rest while (!b)"""
    while s['k'] in ('For', 'While'):
        b = _block(s['body'])
        if b and b[0]['k'] == 'If' and not b[0].get('init') and not b[0].get('var') and _is_break(b[0].get('then')):
            c0, c1 = s.get('c'), b[0]['c']
            def both(h, fr, c0=c0, c1=c1):
                c = ONE if c0 is None else I.boolv(h, c0, fr)
                if c.is0(): return c
                mk = FACTS.mark()
                for x in I.fact_of(c, 1): FACTS.push(x)
                try: return c * (ONE - I.boolv(h, c1, fr))
                finally: FACTS.release(mk)
            s = dict(s, c={'k': 'Py', 'fn': both, 't': {'b': 'bool'}}, body={'k': 'Block', 'b': _block(b[0].get('else')) + b[1:]}); continue
        if b and len(b) > 1 and b[-1]['k'] == 'If' and not b[-1].get('init') and not b[-1].get('var') and not b[-1].get('else') and _is_break(b[-1].get('then')) \
           and _true(I, s.get('c')) and not s.get('inc') and not _continues(b[:-1]):
            c1 = b[-1]['c']
            return {'k': 'Do', 'l': s['l'], 'c': {'k': 'Py', 'fn': lambda h, fr: ONE - I.boolv(h, c1, fr), 't': {'b': 'bool'}}, 'body': {'k': 'Block', 'b': b[:-1]}}
        break
    return s

def do_loop(I, st, s, fr):
    """the first round, then a while loop"""
    mk = FACTS.mark()
    outer = {root(k) for k in st.mem if k[0] in ('L', 'T')}
    rec = {'kind': 'loop', 'brk': [], 'cont': []}
    fr.loops.append(rec)
    try: a = I.exec(st, s['body'], fr)
    finally: fr.loops.pop()
    if rec['cont']: FACTS.release(mk)
    alts = list(rec['cont']) + ([(a.pc, a)] if a is not None else [])
    nxt = None
    if alts:
        nxt = alts[-1][1]
        for p, q in reversed(alts[:-1]): nxt = I.merge(p, q, nxt)
        # locals of the body are dead between rounds (unless the condition is inside their scope, which C++ excludes)
        for k in [k for k in nxt.mem if k[0] in ('L', 'T') and root(k) not in outer]: del nxt.mem[k]
        nxt = loop(I, nxt, dict(s, k='While'), fr)
    if rec['brk']: FACTS.release(mk)
    for p, q in reversed(rec['brk']):
        nxt = State(dict(q.mem), q.pc) if nxt is None else I.merge(p, q, nxt)
    return nxt

def loop(I, st, s, fr):
    if s['k'] == 'For' and s.get('init'):
        st = I.exec(st, s['init'], fr)
        if st is None: return None
    s = normal(I, s)
    if s['k'] == 'Do': return do_loop(I, st, s, fr)
    rf = None
    if s['k'] == 'RangeFor':
        x = I.ev(st, s['range'], fr)
        if isinstance(x, Ptr): x = I.deref(x)
        if isinstance(x, Loc) and (x.t.get('ref') or x.t.get('ptr')): x = I.deref(I.read(st, x))
        cnt = ('L', fr.id, 'rf%d' % s['l'], 'it')
        I.types[cnt] = {'b': 'int'}
        st.mem[cnt] = ZERO
        rf = (x, Loc(cnt, (), {'b': 'int'}))
    uid = next(_w)
    brk = ('L', fr.id, 'brk%d' % uid, 'brk'); ret = ('L', fr.id, 'ret%d' % uid, 'ret'); rvk = ('L', fr.id, 'rv%d' % uid, 'rv')
    for k in (brk, ret): I.types[k] = {'b': 'bool'}
    I.ctx.append(st.pc)
    pc0 = st.pc
    ne, no = len(I.events), len(I.obls)
    mk0 = FACTS.mark()
    line0 = I.line
    I.loopdepth += 1
    try:
        def cond_of(h):
            if rf is not None: return alg.lt0(I.read(h, rf[1]) - I.veclen(h, rf[0]))
            if s.get('c') is None: return ONE
            return I.boolv(h, s['c'], fr)
        def step(mem):
            """one iteration from memory mem (the condition holds): post memory"""
            h = State(dict(mem), ONE)
            rec = {'kind': 'loop', 'brk': [], 'cont': []}
            fr.loops.append(rec); r0 = len(fr.rets); env0 = dict(fr.env)
            if s['k'] != 'Do': cond_of(h)
            if rf is not None:
                v = s['var']; el = I.elemof(rf[0], I.read(h, rf[1]))
                if v['t'].get('ref'): fr.env[v['id']] = el
                else:
                    loc = Loc(('L', fr.id, v['id'], v['n']), (), {k: z for k, z in v['t'].items() if k not in ('ref', 'const')})
                    fr.env[v['id']] = loc; I.store(h, loc, I.load(h, el))
            a = I.exec(h, s['body'], fr)
            fr.loops.pop()
            rets = fr.rets[r0:]; del fr.rets[r0:]
            alts = [(p, q) for p, q in rec['cont']]
            if a is not None: alts.append((a.pc, a))
            nxt = None
            if alts:
                nxt = alts[-1][1]
                for p, q in reversed(alts[:-1]): nxt = I.merge(p, q, nxt)
                if rf is not None: I.store(nxt, rf[1], I.read(nxt, rf[1]) + 1)
                elif s['k'] == 'For' and s.get('inc'): I.ev(nxt, s['inc'], fr)
            out = [(p, q, 'brk', None) for p, q in rec['brk']] + [(p, q, 'ret', v) for p, q, v in rets]
            post = nxt
            for p, q, kd, v in reversed(out):
                q = State(dict(q.mem), q.pc)
                q.mem[brk] = ONE
                if kd == 'ret':
                    q.mem[ret] = ONE
                    if v is not None: q.mem[rvk] = v if not isinstance(v, LV) else v
                if post is None: post = q
                else:
                    b = State(dict(post.mem), post.pc)
                    b.mem.setdefault(brk, _get(I, mem, brk) or ZERO); b.mem.setdefault(ret, ZERO)
                    if kd == 'ret' and v is not None and rvk not in b.mem: b.mem[rvk] = v
                    post = I.merge(p, q, b)
            irregular[0] = irregular[0] or bool(out)
            hasret[0] = hasret[0] or bool(rets)
            return None if post is None else post.mem
        irregular = [False]; hasret = [False]
        W = {}; dims = {}
        mem0 = st.mem
        outer = {root(k) for k in mem0 if k[0] in ('L', 'T')}
        flags = (brk, ret, rvk)
        def local(k): return k[0] in ('L', 'T') and k not in flags and root(k) not in outer         # declared in the body
        # ---- a loop that runs a small constant number of times is executed step by step
        big = False
        if s['k'] in ('For', 'While'):
            r = dict(mem0); ok = False; big = False
            lim = getattr(I, 'unroll', None)
            for _ in range((lim or 8) + 1):
                h = State(dict(r), ONE)
                c0 = cond_of(h).const()
                if c0 is None: break
                if c0 == 0: ok = True; r = h.mem; break
                q = step(dict(r))
                if q is None or irregular[0]: break
                if lim and I.failed: raise Endless('in a round of the loop at line %s, %s:%s: %s' % (s.get('l'), I.failed[0].file, I.failed[0].line, I.failed[0].text[:200]))
                r = {k: v for k, v in q.items() if not local(k)}
                # a scalar that doubles at every step is summarised instead
                if any(isinstance(v, S) and len(v.t) > 40 and '[]' not in k and isinstance(mem0.get(k), S) and len(mem0[k].t) * 2 < len(v.t) for k, v in r.items()): big = True; break
            else:
                if lim: raise Endless('the loop at line %s of %s goes on for more than %d rounds' % (s.get('l'), fr.f['file'], lim))
            if ok:
                I.loopinfo['unrolled'] = I.loopinfo.get('unrolled', 0) + 1
                st.mem = r; st.pc = pc0
                for k in (brk, ret, rvk): st.mem.pop(k, None)
                return st
            del I.events[ne:]; del I.obls[no:]
            irregular[0] = False; hasret[0] = False
        # ---- which leaves change
        for rnd in range(8):
            mem = dict(mem0)
            heads = {}
            for k in W:
                h = Head(k, _get(I, mem0, k), I.types.get(k), dims.get(k, 0)); heads[k] = h; mem[k] = h.val
            del I.events[ne:]; del I.obls[no:]
            post = step(mem)
            if post is None:
                # the body never completes: at most zero iterations return normally
                c0 = cond_of(st)
                for f in I.fact_of(c0, 0): FACTS.push(f)
                del I.events[ne:]; del I.obls[no:]
                st.pc = pc0 * (ONE - c0) if not c0.is1() else ZERO
                return st if not st.pc.is0() else None
            if irregular[0]:
                mem0.setdefault(brk, ZERO)
                if hasret[0]: mem0.setdefault(ret, ZERO)
                if rvk in post and rvk not in mem0:
                    mem0[rvk] = post[rvk] if not isinstance(post[rvk], (S, M)) else (ZERO if isinstance(post[rvk], S) else M.zero(post[rvk].r, post[rvk].c))
                    I.types.setdefault(rvk, {'b': 'double'} if isinstance(post[rvk], S) else {'b': 'Eigen'})
            ch = False
            for k, v in post.items():
                if k[0] == 'H' and k not in mem0 or local(k): continue
                b = mem.get(k)
                if b is None: b = _get(I, mem, k)
                if b is None: continue
                if not same(v, b):
                    if k not in W: W[k] = 1; ch = True
                    if isinstance(v, M) and isinstance(b, M):
                        dd = (0 if v.r == b.r else 1) | (0 if v.c == b.c else 2)
                        if dd & ~dims.get(k, 0): dims[k] = dims.get(k, 0) | dd; ch = True
            if not ch: break
        else: raise Unsupported('loop does not stabilise')
        for k in W:
            if k not in mem0: mem0[k] = _get(I, mem0, k)
        hb = {h.base: h for h in heads.values()}
        # ---- condition at the head
        hst = State(dict(mem), ONE)
        cnd = cond_of(hst)
        trip, ind = (None, None)
        w = atom('lw', (next(_w),), name='k', integer=True, lb=0)
        cands = {}
        if not irregular[0] or True:
            for k, h in heads.items():
                if isinstance(h.val, S) and k in post and isinstance(post[k], S):
                    c = (post[k] - h.val).const()
                    if c is not None and c != 0: cands[k] = c
            trip = _trip(cnd, heads, cands, mem0)
        tc = trip.const() if trip is not None else None
        if tc is not None and 0 <= tc <= 8 and not irregular[0] and not big:
            del I.events[ne:]; del I.obls[no:]
            r = dict(mem0)
            for _ in range(int(tc)):
                q = step(dict(r))
                # keep what the loop changes outside its own scope
                r = {k: v for k, v in q.items() if not local(k)}
            I.loopinfo['unrolled'] = I.loopinfo.get('unrolled', 0) + 1
        elif trip is None:
            r = _general(I, st, mem0, mem, post, heads, cnd, s)
        else:
            if not alg.ge0(trip): trip = trip * alg.b_not(alg.lt0(trip))
            r = _counted(I, st, mem0, heads, cands, trip, w, step, dims, ne, no, irregular[0], brk)
        st.mem = r
        # ---- return flag
        F = st.mem.get(ret)
        st.pc = pc0
        rv = st.mem.get(rvk)
        for k in (brk, ret, rvk): st.mem.pop(k, None)
        if F is not None and not F.is0():
            a = st.fork(F)
            fr.rets.append((a.pc, a, rv))
            if F.is1(): return None
            st.pc = st.pc * (ONE - F)
        return st
    finally:
        I.ctx.pop(); FACTS.release(mk0); I.line = line0; I.loopdepth -= 1

def _trip(cnd, heads, cands, mem0):
    """number of iterations as an expression of the initial values, or None"""
    conds = []
    if len(cnd.t) == 1 and list(cnd.t.values())[0] == 1:
        (m,) = cnd.t.keys()
        if len(m) == 1: conds = [(alg._by_id[m[0][0]], True)]
    else:
        n = ONE - cnd
        if len(n.t) == 1 and list(n.t.values())[0] == 1:
            (m,) = n.t.keys()
            if len(m) == 1: conds = [(alg._by_id[m[0][0]], False)]
    if len(conds) != 1: 
        return ZERO if cnd.is0() else None
    A, pos = conds[0]
    if A.kind == 'lt0':
        p = A.args[0] if pos else -A.args[0] - 1
        if not alg.all_int(p): return None
    elif A.kind == 'eq0' and not pos: p = A.args[0]
    else: return None
    lh = [a for a in free_atoms(p) if a.kind == 'lh']
    delta = ZERO; init = p; mp = {}
    for a in lh:
        k = next((k for k, h in heads.items() if h.base is a.args[0]), None)
        if k is None: continue           # head value of an enclosing loop: invariant here
        if k not in cands: return None
        co = p.t.get(((a.id, 1),))
        if co is None: return None
        delta = delta + cands[k] * co
        mp[a] = mem0[k]
    # linear only
    for m in p.t:
        if sum(1 for x, e in m if alg._by_id[x] in mp) and len(m) > 1: return None
    init = subst(p, mp)
    d = delta.const()
    if d is None or d == 0: return None
    if A.kind == 'lt0':
        if d != 1: return None
        return -init
    if abs(d) != 1: return None
    t = init * (-1 / d)
    return t if alg.ge0(t) else None

def _counted(I, st, mem0, heads, cands, trip, w, step, dims, ne, no, irregular, brk):
    W = S.of(w)
    mk = FACTS.mark()
    FACTS.push(W); FACTS.push(trip - W - 1)
    try:
        mem = dict(mem0)
        H = {}                      # base atom -> value at iteration w (template)
        for k, h in heads.items():
            if k in cands:
                mem[k] = mem0[k] + W * cands[k]
                H[h.base] = mem[k]
            else: mem[k] = h.val
        del I.events[ne:]; del I.obls[no:]
        post = step(mem)
        if post is None: raise Unsupported('loop body')
        bh = None
        if irregular and brk in heads:
            bh = heads[brk].val
        P = {}
        for k, h in heads.items():
            if k in cands and not irregular: continue
            v = post.get(k)
            if v is None: v = mem[k]
            if isinstance(v, S) and isinstance(h.val, S):
                if bh is not None: v = ite(bh, h.val, v)
                P[h.base] = (h, 'v', v, h.v0, h.val)
            elif isinstance(v, M) and isinstance(h.val, M):
                old = alg.SHAPES.cb; alg.SHAPES.cb = None
                if bh is not None: v = ite(bh, h.val, v)
                P[h.base] = (h, 'v', v, h.v0, h.val)
                if dims.get(k, 0) & 1: P[h.br] = (h, 'r', v.r, h.v0.r, h.val.r)
                if dims.get(k, 0) & 2: P[h.bc] = (h, 'c', v.c, h.v0.c, h.val.c)
                alg.SHAPES.cb = old
            else:
                P[h.base] = (h, 'o', v, h.v0, h.val)
        if irregular: H = {}
        others = {}
        # ---- resolution
        prog = True
        def deps(v):
            return {a.args[0] for a in free_atoms(v) if isinstance(a, alg.Atom) and a.kind == 'lh' and a.args[0] in P} | \
                   {a.args[0] for a in free_atoms(v) if isinstance(a, alg.MAtom) and a.kind == 'lh' and a.args[0] in P}
        pend = dict(P)
        final = {}
        nosh = alg.SHAPES.cb; alg.SHAPES.cb = None
        w2 = atom('lw', (next(_w),), name='k', integer=True, lb=0)
        selfdep = {}
        while prog and pend:
            prog = False
            for b, (h, kind, v, v0, hv) in list(pend.items()):
                if kind == 'o':
                    # pointers and opaque values: constant or last value
                    H[b] = None; final[b] = v; del pend[b]; prog = True; continue
                dv = deps(v)
                if same(v, hv): H[b] = v0; del pend[b]; prog = True; continue
                if not dv - set(H):
                    # last value
                    v1 = subst(v, {x: H[x] for x in dv})
                    prev = subst(v1, {w: W - 1})
                    H[b] = vite(alg.eq0(W), v0, prev) if not same(v0, prev) else v0
                    final[b] = vite(alg.lt0(-trip), subst(v1, {w: trip - 1}), v0)
                    del pend[b]; prog = True; continue
                fw_ = _family(h, b, v, hv, v0, w, H, deps)
                if fw_ is not None:
                    X, q = fw_
                    def at(n): return _keep(alg.b_not(alg.lt0(q)) * alg.lt0(q - n), X, v0)
                    H[b] = at(W); final[b] = at(trip)
                    del pend[b]; prog = True; continue
                delta = v - hv
                dd = deps(delta)
                if not dd - set(H) - {b}:
                    x = subst(delta, {y: H[y] for y in dd if y is not b})
                    if b in dd:
                        x0 = subst(x, {b: v0})
                        if isinstance(x0, M): x0 = M(v0.r, v0.c, x0.t)
                        Hb = v0 + _sum(w2, ZERO, W, subst(x0, {w: S.of(w2)}))
                        FACTS.push(W)
                        x1 = subst(x, {b: Hb})
                        if not _eqv(x1, x0): continue
                    else:
                        x0 = x
                        if isinstance(x0, M): x0 = M(v0.r, v0.c, x0.t)
                        Hb = v0 + _sum(w2, ZERO, W, subst(x0, {w: S.of(w2)}))
                    H[b] = Hb
                    final[b] = v0 + _sum(w2, ZERO, trip, subst(x0, {w: S.of(w2)}))
                    del pend[b]; prog = True; continue
        I.loopinfo['closed'] += len(P) - len(pend) + len(cands); I.loopinfo['fold'] += len(pend)
        if pend:
            # dims and 'others' first
            order = sorted(pend, key=lambda b: (skey(pend[b][0].key), pend[b][1]))
            mpH = {x: y for x, y in H.items() if y is not None}
            grp = [(b, pend[b]) for b in order]
            posts = [subst(x[2], {y: z for y, z in mpH.items() if y not in pend}) for _, x in grp]
            res = make_fold('fold', trip, grp, posts, w, None)
            resW = make_fold('fold', W, grp, posts, w, None)
            for (b, x), f, fw in zip(grp, res, resW): final[b] = f; H[b] = fw
        out = dict(mem0)
        for k, h in heads.items():
            if h.base in final:
                v = final[h.base]
            elif k in cands and not irregular: v = mem0[k] + trip * cands[k]
            else: v = mem0[k]
            if isinstance(v, M) and dims.get(k, 0):
                r = final.get(h.br, v.r) if dims[k] & 1 else h.v0.r
                c = final.get(h.bc, v.c) if dims[k] & 2 else h.v0.c
                v = M(r, c, v.t)
            out[k] = v
        # events and obligations of the body: replace head values
        mpH = {x: y for x, y in H.items() if y is not None}
        for i in range(ne, len(I.events)):
            kd, pc, data = I.events[i]
            I.events[i] = (kd, subst(pc, mpH), {a: (I.vsubst(z, mpH) if isinstance(z, (S, M)) else z) for a, z in data.items()})
        for o in I.obls[no:]:
            try:
                o.cond = subst(o.cond, mpH); o.pc = subst(o.pc, mpH)
                if o.cond.const() is None: o.cond = alg.resimp(o.cond)
                if o.cond.is0() and o.kind == 'shape': pass
            except Exception: pass
        alg.SHAPES.cb = nosh
        return out
    finally:
        FACTS.release(mk)

def _keep(c, x, y):
    if isinstance(x, M): return M(y.r, y.c, vite(c, M(y.r, y.c, x.t), y).t) if (x.r != y.r or x.c != y.c) else vite(c, x, y)
    return vite(c, x, y)

def _family(h, b, v, hv, v0, w, H, deps):
    """v(p) = [p == w + k] ? X : hv(p), one element of an array of objects written per iteration"""
    if h.d < 1: return None
    phs = [ph(i) for i in range(h.d)]
    for A in free_atoms(v):
        if not isinstance(A, alg.Atom) or A.kind != 'eq0': continue
        fa = list(free_atoms(A.args[0]))
        if w not in fa: continue
        ps = [x for x in phs if x in fa]
        if len(ps) != 1: continue
        p = ps[0]; arg = A.args[0]
        cw = arg.t.get(((w.id, 1),)); cp = arg.t.get(((p.id, 1),))
        if cw is None or cp is None or cw != -cp or abs(cp) != 1: continue
        rest = arg - S.of(w) * cw - S.of(p) * cp
        if any(x in (w, p) for x in free_atoms(rest)) or deps(rest): continue
        Y = subst(v, {A: ZERO})
        if isinstance(hv, M):
            if not same(M(hv.r, hv.c, Y.t), hv): continue
        elif not same(Y, hv): continue
        X = subst(v, {A: ONE})
        dx = deps(X)
        if dx - set(H) - {b}: continue
        q = S.of(p) + rest / cp          # the iteration that writes element p
        m = {y: H[y] for y in dx if y is not b}
        if any(z is None for z in m.values()): continue
        if b in dx: m[b] = v0
        X = subst(X, m)
        X = subst(X, {w: q})
        return X, q
    return None

def _sum(w, lo, hi, x):
    if isinstance(x, S): return alg.ssum(w, lo, hi, x)
    return alg.msum(w, lo, hi, x)

def _eqv(a, b):
    if isinstance(a, S): return alg.eq(a, b) or alg.zero_cases(a - b)
    d = M(a.r, a.c, (M(a.r, a.c, a.t) - M(a.r, a.c, b.t)).t)
    return d.zero_p()

def _level(x):
    r = -1
    for a in free_atoms(x):
        if a.kind in ('fw', 'fhb'): r = max(r, a.args[0])
    return r

def root(k): return k[:4] if k[0] == 'L' else k[:2]

def make_fold(kind, trip, grp, posts, w, cond):
    """grp: [(base, (head, part, post, init, headval))] -> final values as fold terms"""
    inits = [x[3] for _, x in grp]
    lv = max([-1] + [_level(p) for p in posts] + [_level(p) for p in inits] + ([_level(cond)] if cond is not None else [])) + 1
    mp = {}
    for j, (b, x) in enumerate(grp):
        h, part, v, v0, hv = x
        A = next(iter(hv.atoms())) if isinstance(v0, S) else None
        fb = atom('fhb', (lv, j, (A.boolean, A.integer, A.lb) if A else 'm'))     # attributes are part of the name: terms are shared by name
        args = (fb,) + tuple(S.of(ph(i)) for i in range(h.d))
        if isinstance(v0, S):
            mp[b] = S.of(atom('fh', args, name='f%d.%d' % (lv, j), boolean=A.boolean, integer=A.integer, lb=A.lb))
        else: mp[b] = M.of(matom('fh', args, v0.r, v0.c, name='f%d.%d' % (lv, j)))
    mp[w] = S.of(atom('fw', (lv,), name='fw%d' % lv, integer=True, lb=0))
    bnd = {ph(i): S.of(atom('fp', (lv, i), name='fp%d.%d' % (lv, i), integer=True, lb=0)) for i in range(4)}
    ps = tuple(subst(subst(p, mp), bnd) for p in posts)
    ins = tuple(subst(v, bnd) for v in inits)
    ds = tuple(x[0].d for _, x in grp)
    lead = trip if kind == 'fold' else subst(subst(cond, mp), bnd)
    out = []
    for j, (b, x) in enumerate(grp):
        h, part, v, v0, hv = x
        phs = tuple(S.of(ph(i)) for i in range(h.d))
        args = (lv, j, lead, ins, ps, ds) + phs
        if isinstance(v0, S):
            A = next(iter(hv.atoms()))
            out.append(S.of(atom(kind, args, name='%s%d(%s)' % (kind, j, h.key[-1]), boolean=A.boolean, integer=A.integer, lb=A.lb)))
        else:
            out.append(M.of(matom(kind, args, v0.r, v0.c, name='%s%d(%s)' % (kind, j, h.key[-1]))))
    return out

def _general(I, st, mem0, mem, post, heads, cnd, s):
    grp = []; posts = []
    w = atom('lw', (next(_w),), name='k', integer=True, lb=0)
    keys = sorted(heads, key=skey)
    out = dict(mem0)
    nosh = alg.SHAPES.cb; alg.SHAPES.cb = None
    for k in keys:
        h = heads[k]; v = post.get(k, h.val)
        if isinstance(h.val, (S, M)) and isinstance(v, (S, M)):
            grp.append((h.base, (h, 'v', v, h.v0, h.val))); posts.append(v)
            if isinstance(h.val, M) and h.val.r != h.v0.r:
                grp.append((h.br, (h, 'r', v.r, h.v0.r, h.val.r))); posts.append(v.r)
            if isinstance(h.val, M) and h.val.c != h.v0.c:
                grp.append((h.bc, (h, 'c', v.c, h.v0.c, h.val.c))); posts.append(v.c)
        else: out[k] = v
    brk = [k for k in heads if k[0] == 'L' and str(k[2]).startswith('brk')]
    if brk: cnd = cnd * (ONE - heads[brk[0]].val)
    res = make_fold('wfold', None, grp, posts, w, cnd)
    I.loopinfo['fold'] += len(grp)
    H = {}
    for (b, x), f in zip(grp, res):
        H[b] = f
    for (b, x), f in zip(grp, res):
        if x[1] == 'v':
            v = f
            h = x[0]
            if isinstance(v, M) and hasattr(h, 'br'):
                v = M(H.get(h.br, v.r), H.get(h.bc, v.c), v.t)
            out[h.key] = v
    alg.SHAPES.cb = nosh
    return out
