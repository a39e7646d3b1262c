"""Models of the standard library's algorithms, of iterators and of closures handed to them.

An algorithm over a range is executed as the loop it stands for (a `While` whose condition and body are the
callbacks below), so that it is summarised by the same machinery as a written loop."""
import itertools
from . import alg
from .alg import S, M, ZERO, ONE, ite
from .interp import (Loc, LV, Ptr, Opq, Iter, IterVar, Closure, Inserter, Axis, Unsupported, Multi, VALUES, same, strip_ref,
                     is_eig, is_scalar, is_vec, Frame, vite)

_n = itertools.count()
INT = {'b': 'int'}; BOOL = {'b': 'bool'}

def py(f, t=INT): return {'k': 'Py', 'fn': f, 't': t}
def do(f): return {'k': 'Expr', 'e': py(f)}

def local(I, st, t=INT, v=None):
    """a variable of the algorithm (kept by the caller's frame)"""
    fr = I.stack[-1] if I.stack else None
    l = Loc(('L', fr.id if fr else 0, 'ext%d' % next(_n), 'it'), (), t)
    if v is not None: I.store(st, l, v)
    return l

def rng(a, b):
    if not isinstance(a, Iter) or not isinstance(b, Iter) or not same(a.lv, b.lv) or a.rev != b.rev: raise Unsupported('range of iterators')
    return b.i - a.i

def loop(I, st, fr, n, body, stop=None):
    """for (k = 0; k < n [&& !stop(k)]; ++k) body(k); returns the location of k"""
    fr = fr or Frame({'q': '?', 'file': '?'}, None)
    k = local(I, st, INT, ZERO)
    def cond(h, f):
        c = alg.lt0(I.read(h, k) - n)
        if stop is not None and not c.is0():
            mk = alg.FACTS.mark()
            for x in I.fact_of(c, 1): alg.FACTS.push(x)
            c = c * alg.b_not(I.tobool(I.load(h, stop(h, I.read(h, k)))))
            alg.FACTS.release(mk)
        return c
    s = {'k': 'While', 'l': I.line, 'c': py(cond, BOOL),
         'body': {'k': 'Block', 'b': [do(lambda h, f: body(h, I.read(h, k))), do(lambda h, f: I.store(h, k, I.read(h, k) + 1))]}}
    I.cur = st
    r = I.loop(st, s, fr)
    if r is None or r.pc.is0(): raise Unsupported('algorithm')
    if r is not st: st.mem = r.mem
    return k

def elem(I, st, it, k):
    I.cur = st
    return I.at(it, k)
def get(I, st, it, k): return I.load(st, elem(I, st, it, k))

def put(I, st, out, k, v):
    if isinstance(out, Inserter): I.vec_method(st, out.lv, 'push_back', [v], None)
    else:
        l = elem(I, st, out, k)
        I.store(st, l, v if isinstance(v, LV) and not is_eig(l.t) and not is_scalar(l.t) else I.load(st, v))

def append_range(I, st, lv, a, b, fr):
    n = rng(a, b)
    if same(a.lv, lv): raise Unsupported('insertion of a part of itself')
    m = I.veclen(st, lv)
    if m.is0() and a.i.is0() and not a.rev and isinstance(a.lv, Loc) and n == I.veclen(st, a.lv):
        I.copy(st, lv, a.lv); return
    d0 = len(lv.idx)
    if isinstance(a.lv, Loc) and not lv.idx and not a.lv.idx and not a.rev and lv.t['a'][0]['b'] == a.lv.t['a'][0]['b']:
        from .interp import ph
        for p, lt, d in I.leaves(lv.t['a'][0]):          # element k of the result is element k - m + a of the source
            old = I.raw(st, lv.path + ('[]',) + p, lt); src = I.raw(st, a.lv.path + ('[]',) + p, lt)
            src = I.vsubst(src, {ph(0): S.of(ph(0)) - m + a.i})
            st.mem[lv.path + ('[]',) + p] = vite(alg.lt0(S.of(ph(0)) - m), old, src)
        I.write(st, I.lenloc(lv), m + n); return
    loop(I, st, fr, n, lambda h, k: I.vec_method(h, lv, 'push_back', [get(I, h, a, k)], None))

def iter_op(I, op, a, b):
    if isinstance(a, Iter) and isinstance(b, S) and op in ('+', '-'): return Iter(a.lv, a.i + b if op == '+' else a.i - b, a.rev)
    if isinstance(b, Iter) and isinstance(a, S) and op == '+': return Iter(b.lv, a + b.i, b.rev)
    if isinstance(a, Iter) and isinstance(b, Iter):
        if not same(a.lv, b.lv) or a.rev != b.rev: raise Unsupported('comparison of iterators into different containers')
        if op == '-': return a.i - b.i
        if op in ('==', '!=', '<', '>', '<=', '>='): return alg.cmp(op, a.i, b.i)
    raise Unsupported('iterator ' + op)

def axis(I, o, n):
    m = o.m
    if n == 'sum': return m.mul(M.of(alg.ones(m.c))) if o.rows else M.of(alg.ones(m.r)).T.mul(m)
    if n == 'mean': return m.mul(M.of(alg.ones(m.c))).scale(ONE / m.c) if o.rows else M.of(alg.ones(m.r)).T.mul(m).scale(ONE / m.r)
    raise Unsupported(('rowwise ' if o.rows else 'colwise ') + n)

def call(I, st, f, *args):
    I.cur = st
    return I.load(st, I.apply(st, f, list(args)))

def std_call(I, st, e, f, args, vs, fr):
    n = f['n']; q = f['q']
    if not q.startswith('std::'): return NotImplemented
    its = [v for v in vs if isinstance(v, Iter)]
    if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'rbegin', 'rend') and len(args) == 1:
        x = vs[0]
        if isinstance(x, (Loc, Multi)) and is_vec(I.multi_first(x).t): return I.vec_method(st, x, n, [], e)
        return NotImplemented
    if n == 'back_inserter' and isinstance(vs[0], Loc): return Inserter(vs[0])
    if n == 'make_pair':
        t = {'b': 'std::pair', 'a': [strip_ref(a) for a in e['t']['a']]}
        tmp = Loc(('T', next(I.tmp)), (), t)
        for k, ft, v in zip(('first', 'second'), t['a'], vs): I.store(st, Loc(tmp.path + (k,), (), ft), v)
        return tmp
    if n == 'minmax' and len(vs) == 2 and all(isinstance(v, S) for v in vs):
        tmp = Loc(('T', next(I.tmp)), (), {'b': 'std::pair', 'a': [strip_ref(a) for a in e['t']['a']]})
        c = alg.lt0(vs[1] - vs[0])
        for k, x, y in (('first', vs[1], vs[0]), ('second', vs[0], vs[1])): I.store(st, Loc(tmp.path + (k,), (), tmp.t['a'][0]), ite(c, x, y))
        return tmp
    if n in ('max', 'min') and len(vs) == 1 and isinstance(vs[0], Loc) and is_vec(vs[0].t):
        k = I.veclen(st, vs[0]).const()
        if k is None or not 0 < k <= 8: raise Unsupported('std::' + n)
        xs = [I.load(st, I.elemof(vs[0], i)) for i in range(int(k))]; r = xs[0]
        for x in xs[1:]: r = ite(alg.lt0(r - x) if n == 'max' else alg.lt0(x - r), x, r)
        return r
    if n in ('max', 'min') and len(vs) == 3:
        c = call(I, st, vs[2], args[0], args[1]) if n == 'max' else call(I, st, vs[2], args[1], args[0])
        return vite(I.tobool(c), args[1] if isinstance(args[1], LV) else vs[1], args[0] if isinstance(args[0], LV) else vs[0])
    if n in ('plus', 'minus', 'multiplies'): return NotImplemented
    if not its:
        return NotImplemented
    if n in ('next', 'prev') and isinstance(vs[0], Iter):
        d = vs[1] if len(vs) > 1 and isinstance(vs[1], S) else ONE
        return Iter(vs[0].lv, vs[0].i + d if n == 'next' else vs[0].i - d, vs[0].rev)
    if n == 'advance': I.store(st, args[0], Iter(vs[0].lv, vs[0].i + vs[1], vs[0].rev)); return None
    if n == 'distance': return rng(vs[0], vs[1])
    if n == 'iter_swap':
        a, b = elem(I, st, vs[0], ZERO), elem(I, st, vs[1], ZERO)
        tmp = Loc(('T', next(I.tmp)), (), a.t)
        I.store(st, tmp, a); I.store(st, a, b); I.store(st, b, tmp); return None
    if n == 'for_each':
        loop(I, st, fr, rng(vs[0], vs[1]), lambda h, k: call(I, h, vs[2], elem(I, h, vs[0], k))); return vs[2]
    if n in ('accumulate', 'inner_product'):
        o = 1 if n == 'inner_product' else 0
        t = strip_ref(e['t']); acc = local(I, st, t)
        I.store(st, acc, args[2 + o] if isinstance(args[2 + o], LV) and not is_eig(t) and not is_scalar(t) else vs[2 + o])
        def body(h, k):
            x = elem(I, h, vs[0], k)
            if o:
                y = elem(I, h, vs[2], k)
                x = call(I, h, vs[5], x, y) if len(vs) > 5 else I.load(h, x) * I.load(h, y)
            cur = I.read(h, acc)
            if len(vs) > 3 + o: I.store(h, acc, call(I, h, vs[3 + o], cur if is_scalar(t) or is_eig(t) else acc, x))
            else: I.store(h, acc, cur + I.load(h, x))
        loop(I, st, fr, rng(vs[0], vs[1]), body)
        return I.load(st, acc)
    if n in ('fill', 'fill_n'):
        v = vs[2]; cnt = rng(vs[0], vs[1]) if n == 'fill' else vs[1]
        a = vs[0]
        if isinstance(a.lv, Loc) and a.i.is0() and not a.rev and cnt == I.veclen(st, a.lv): I.vec_set_range(st, a.lv, ZERO, args[2]); return None
        loop(I, st, fr, cnt, lambda h, k: put(I, h, a, k, v)); return None
    if n == 'iota':
        loop(I, st, fr, rng(vs[0], vs[1]), lambda h, k: put(I, h, vs[0], k, vs[2] + k)); return None
    if n == 'generate':
        loop(I, st, fr, rng(vs[0], vs[1]), lambda h, k: put(I, h, vs[0], k, call(I, h, vs[2]))); return None
    if n in ('copy', 'copy_n', 'move'):
        if n == 'move' and len(vs) == 1: return NotImplemented
        cnt = vs[1] if n == 'copy_n' else rng(vs[0], vs[1]); a, out = vs[0], vs[2]
        if isinstance(out, Inserter): append_range(I, st, out.lv, a, Iter(a.lv, a.i + cnt, a.rev), fr); return out
        loop(I, st, fr, cnt, lambda h, k: put(I, h, out, k, elem(I, h, a, k)))
        return Iter(out.lv, out.i + cnt, out.rev)
    if n == 'transform':
        cnt = rng(vs[0], vs[1]); two = len(vs) == 5
        out, g = vs[-2], vs[-1]
        def body(h, k):
            xs = [elem(I, h, vs[0], k)] + ([elem(I, h, vs[2], k)] if two else [])
            put(I, h, out, k, call(I, h, g, *xs))
        loop(I, st, fr, cnt, body)
        return out if isinstance(out, Inserter) else Iter(out.lv, out.i + cnt, out.rev)
    if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
        a = vs[0]
        def hit(h, k):
            if n == 'find': return alg.eq0(get(I, h, a, k) - vs[2])
            c = I.tobool(call(I, h, vs[2], elem(I, h, a, k)))
            return alg.b_not(c) if n in ('find_if_not', 'all_of') else c
        if n in ('any_of', 'all_of', 'none_of'):
            found = local(I, st, BOOL, ZERO)
            loop(I, st, fr, rng(a, vs[1]), lambda h, k: I.store(h, found, alg.b_or(I.read(h, found), hit(h, k))))
            r = I.read(st, found)
            return r if n == 'any_of' else alg.b_not(r)
        k = loop(I, st, fr, rng(a, vs[1]), lambda h, k: None, stop=hit)
        return Iter(a.lv, a.i + I.read(st, k), a.rev)
    if n in ('count', 'count_if'):
        c = local(I, st, INT, ZERO)
        def body(h, k):
            x = alg.eq0(get(I, h, vs[0], k) - vs[2]) if n == 'count' else I.tobool(call(I, h, vs[2], elem(I, h, vs[0], k)))
            I.store(h, c, I.read(h, c) + x)
        loop(I, st, fr, rng(vs[0], vs[1]), body)
        return I.read(st, c)
    if n in ('max_element', 'min_element'):
        a = vs[0]; best = local(I, st, INT, ZERO)
        def body(h, k):
            x, y = elem(I, h, a, I.read(h, best)), elem(I, h, a, k)
            if len(vs) > 2: c = I.tobool(call(I, h, vs[2], x, y) if n == 'max_element' else call(I, h, vs[2], y, x))
            else:
                u, v = I.load(h, x), I.load(h, y)
                c = alg.lt0(u - v) if n == 'max_element' else alg.lt0(v - u)
            I.store(h, best, vite(c, k, I.read(h, best)))
        loop(I, st, fr, rng(a, vs[1]), body)
        return Iter(a.lv, a.i + I.read(st, best), a.rev)
    if n == 'reverse' and vs[0].i.is0():
        lv = vs[0].lv; c = rng(vs[0], vs[1])
        if isinstance(lv, Loc) and not lv.idx and c == I.veclen(st, lv):
            from .interp import ph
            for p, lt, d in I.leaves(lv.t['a'][0]):
                v = I.raw(st, lv.path + ('[]',) + p, lt)
                st.mem[lv.path + ('[]',) + p] = I.vsubst(v, {ph(0): c - 1 - S.of(ph(0))})
            return None
    raise Unsupported(q)
