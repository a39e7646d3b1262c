"""Sign of a value term by structural induction: constants, products, case split over guards, and loop
summaries (initial value positive, and the loop body keeps it positive)."""
from . import alg
from .alg import S, FACTS, subst, ZERO, ONE, _by_id

def positive(x, hyp=frozenset(), depth=0):
    if depth > 24: return False
    c = x.const()
    if c is not None: return c > 0
    if alg.gt0(x): return True
    if len(x.t) == 1:
        m, c = next(iter(x.t.items()))
        if c > 0 and all(_atom(_by_id[a], hyp, depth + 1) for a, e in m if not (e % 2 == 0 and False)): return True
    bs = [_by_id[a] for m in x.t for a, e in m if _by_id[a].boolean]
    if bs:
        b = bs[0]; n0 = len(FACTS.l)
        try:
            if b.kind == 'lt0': FACTS.push(b.args[0])
            if not positive(subst(x, {b: ZERO}), hyp, depth + 1): return False
        finally: FACTS.release(n0)
        try:
            if b.kind == 'lt0': FACTS.push(-b.args[0])
            return positive(subst(x, {b: ONE}), hyp, depth + 1)
        finally: FACTS.release(n0)
    # a sum of positive terms
    return len(x.t) > 1 and all(positive(S({m: c}), hyp, depth + 1) for m, c in x.t.items())

def _atom(A, hyp, depth):
    if A in hyp: return True
    if A.kind == 'fold':
        lv, j, lead, ins, ps, ds = A.args[:6]
        if ds[j] != 0 or not positive(ins[j], hyp, depth): return False
        heads = {a for p in ps for a in alg.free_atoms(p) if a.kind == 'fh' and a.args[0].args[:2] == (lv, j)}
        return positive(ps[j], hyp | frozenset(heads), depth)
    return alg.gt0(S.of(A))
