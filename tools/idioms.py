#!/usr/bin/env python3
"""The engine on tests/idioms.cpp: every k* is found equal to ref, every x* different.  usage: idioms.py [NAMESPACE]"""
import os, sys, tempfile, shutil, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
d = tempfile.mkdtemp(prefix='idioms_'); os.makedirs(d + '/src'); os.makedirs(d + '/qpsolver/src')
shutil.copy(VERIF + '/tests/idioms.cpp', d + '/src/')
os.environ['MWSA_REPO'] = d; sys.path.insert(0, VERIF)
from mwsa import ir, alg, interp, chk, summ
from mwsa.interp import *
from mwsa import ext
from mwsa.scen import Scen, sym, symm
ir.BUILD_KEEP = True
P = ir.load(); shutil.rmtree(d)
groups = {}
for f in P.fun.values():
    if '::' in f['q'] and not f.get('cls'):
        ns, n = f['q'].split('::')[:2]; groups.setdefault(ns, {})[n] = f
def evaluate(f):
    s = Scen(P, dyn=False); I = s.I; args = []; locs = []
    for i, p in enumerate(f['params']):
        t = strip_ref(p['t']); root = 'a%d%s' % (i, t['b'][:3] + f['q'].split('::')[0])
        I.init_mode[root] = 'sym'; l = Loc((root,), (), t)
        args.append(l if p['t'].get('ref') else I.load(s.st, l) if not is_vec(t) else l)
        if p['t'].get('ref') and not p['t'].get('const'): locs.append(l)
    r = I.call(s.st, f, None, args)
    r = I.load(s.st, r)
    out = []
    for v in [r] + [I.load(s.st, l) for l in locs]:
        if v is None: continue
        if isinstance(v, LV):
            for p, lt, dd in I.leaves(v.t):
                x = I.leafval(s.st, v, p, lt, dd, 0)
                if p and p[0] == '[]':      # contents only within the size
                    n = I.veclen(s.st, v); i = sym('i', integer=True, lb=0)
                    x = I.vsubst(x, {ph(0): i}); out.append(('elem', x, n - 1 - i))
                else: out.append(('v', x, None))
        else: out.append(('v', v, None))
    if I.unknown: out.append(('unk', sorted(I.unknown), None))
    return out
def cmp(a, b):
    st = 'PROVED'; why = ''
    ka = [x for x in a if x[0] == 'unk']; kb = [x for x in b if x[0] == 'unk']
    if ka or kb: return 'UNKNOWN', str(ka + kb)
    if len(a) != len(b): return 'SHAPE', '%d/%d' % (len(a), len(b))
    for (k, x, g), (k2, y, g2) in zip(a, b):
        r, w = chk.decide(x, y, assume=[g] if g is not None else [])
        rank = ['PROVED', 'AGREE', 'UNDECIDED', 'VIOLATED']
        if rank.index(r) > rank.index(st): st, why = r, w + '\n      %s\n      %s' % (chk.clip(x, 300), chk.clip(y, 300))
    return st, why
bad = 0; tot = {}
class TO(Exception): pass
def al(*a): raise TO()
for ns, fs in groups.items():
    if len(sys.argv) > 1 and sys.argv[1] not in ns: continue
    try: ref = evaluate(fs['ref'])
    except Exception as e: print('%s REF %s %s' % (ns, type(e).__name__, e)); traceback.print_exc(); continue
    for n in sorted(fs):
        if n[0] not in 'kx' or not n[1:].isdigit(): continue
        signal.signal(signal.SIGALRM, al); signal.alarm(40)
        try: r, why = cmp(ref, evaluate(fs[n]))
        except TO: r, why = 'TIMEOUT', ''
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r, why = type(e).__name__, '%s (%s:%d)' % (str(e)[:200], os.path.basename(tb.filename), tb.lineno)
        finally: signal.alarm(0); alg.FACTS.release(0)
        ok = r in ('PROVED', 'AGREE') if n[0] == 'k' else r == 'VIOLATED'
        tot[r if not ok else 'ok'] = tot.get(r if not ok else 'ok', 0) + 1
        flag = '' if ok else ('  <<<< FALSE ALARM' if n[0] == 'k' and r == 'VIOLATED' else '  <<<< MISSED' if n[0] == 'x' and r in ('PROVED', 'AGREE') else '  << no answer')
        if not ok or r == 'AGREE' or '-v' in sys.argv: print('%-10s %-4s %-10s%s %s' % (ns, n, r, flag, why if not ok else ''))
print(tot)
