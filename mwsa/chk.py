"""Common frame of the checks: obligations, decision policy, known findings, evidence, exit codes.

An obligation is an equality between two value terms (or a structural fact) derived from /repo's current
source.  Status:
  PROVED      the normal forms coincide (holds for every input)
  AGREE       not settled by the normal form, and the polynomial identity test found no difference
  UNDECIDED   the abstraction gives no answer (reported in the evidence, never an alarm)
  VIOLATED    the two sides differ; a witness assignment is part of the report
Exit 0: nothing VIOLATED beyond the known findings; 1: VIOLATION; 3: the analysis itself is broken
(an anchor is gone, nothing was analysed)."""
import json, os, sys, time, signal, traceback, hashlib
import multiprocessing as mp
from . import alg, ir, interp
from .alg import S, M

VERIF = ir.VERIF
sys.setrecursionlimit(30000)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'): TIER = 'quick'

class Result:
    def __init__(self, name, status, where='', detail='', rule=''):
        self.name = name; self.status = status; self.where = where; self.detail = detail; self.rule = rule

class Task:
    """collects the obligations of one analysis task"""
    def __init__(self): self.res = []; self.stats = {}
    def add(self, name, status, where='', detail='', rule=''):
        self.res.append(Result(name, status, where, detail, rule))
    def ok(self, name, where='', detail='', rule=''): self.add(name, 'PROVED', where, detail, rule)
    def bad(self, name, where='', detail='', rule=''): self.add(name, 'VIOLATED', where, detail, rule)
    def fact(self, cond, name, where='', detail='', rule=''):
        self.add(name, 'PROVED' if cond else 'VIOLATED', where, '' if cond else detail, rule); return bool(cond)
    def eq(self, name, got, want, where='', rule='', assume=(), over=None, note=''):
        """got == want (S or M), both extracted from source or specified"""
        st, d = decide(got, want, assume, over)
        if st == 'VIOLATED':
            d = '%s\n  analysed : %s\n  required : %s' % (d, clip(got), clip(want)) + ('\n  ' + note if note else '')
        self.add(name, st, where, d, rule)
        return st
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def absorb(self, I):
        """statistics of an interpreter run"""
        self.stats.setdefault('functions', set()).update(I.funcs_seen)
        self.stats.setdefault('unmodelled', set()).update(I.unknown)
        self.count('calls', I.calls)
        for k, v in I.loopinfo.items(): self.count('loops_' + k, v)

def clip(x, n=700):
    s = str(x)
    return s if len(s) <= n else s[:n] + ' ...'

def decide(a, b, assume=(), over=None):
    if isinstance(a, (int,)): a = S.of(a)
    if isinstance(b, (int,)): b = S.of(b)
    if isinstance(a, S) and isinstance(b, M): a = M.scalar(a)
    if isinstance(b, S) and isinstance(a, M): b = M.scalar(b)
    if not isinstance(a, (S, M)) or not isinstance(b, (S, M)):
        return ('PROVED', '') if _same(a, b) else ('UNDECIDED', 'values %r / %r are not terms' % (type(a), type(b)))
    from . import rint
    fs = list(assume) + list(alg.FACTS.l)
    if _ident(a, b): return 'PROVED', ''
    r = _veq(a, b, assume, 3)
    if r: return 'PROVED', ''
    x, why = rint.compare(a, b, assume=fs, over=over, seed=SEED, tries=4, want=2, budget=20)
    if x == 'NE': return 'VIOLATED', why
    if r is None and _veq(a, b, assume, 0): return 'PROVED', ''
    # the normal form does not settle it: search harder for a disagreement
    t0 = time.time()
    r, why = rint.compare(a, b, assume=fs, over=over, seed=SEED + 77, tries=40 if TIER == 'quick' else 200,
                          want=30 if TIER == 'quick' else 150, budget=6 if TIER == 'quick' else 60)
    if r == 'NE': return 'VIOLATED', why
    x, why2 = rint.cases(a, b, fs, over, SEED, budget=6 if TIER == 'quick' else 60)
    if x == 'NE': return 'VIOLATED', why2
    return ('AGREE', '%s points' % why) if r == 'AGREE' else ('UNDECIDED', str(why))

class _Budget(Exception): pass
def _over(*a): raise _Budget()
def _veq(a, b, assume, secs):
    """equality of normal forms under the assumptions; None when the time ran out"""
    n0 = len(alg.FACTS.l)
    for f in assume: alg.FACTS.push(f)
    if secs: signal.signal(signal.SIGVTALRM, _over); signal.setitimer(signal.ITIMER_VIRTUAL, secs)
    try: return bool(alg.veq(a, b))
    except RecursionError: return False
    except _Budget: return None
    finally:
        if secs: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        alg.FACTS.release(n0)

def _ident(a, b):
    """the two terms have literally the same normal form"""
    if isinstance(a, S) and isinstance(b, S): return a is b or not (a - b).t
    if isinstance(a, M) and isinstance(b, M):
        return a is b or (not (a.r - b.r).t and not (a.c - b.c).t and (a.t == b.t or not M(a.r, a.c, (a - b).t).t))
    return False

def _same(a, b):
    from .interp import same
    try: return same(a, b)
    except Exception: return False

# ------------------------------------------------------------------ running
class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

_G = {}
def _work(i):
    name, fn, args, limit = _G['tasks'][i]
    t = Task(); t0 = time.time()
    limit = int(max(5, min(limit, _G['end'] - t0)))
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    broken = None; interp.Interp.made.clear()
    try: fn(_G['P'], t, *args)
    except ir.AnalysisBroken as e: broken = str(e)
    except Timeout: t.add('%s: whole task' % name, 'UNDECIDED', detail='time limit of %ds' % limit)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        t.add('%s: whole task' % name, 'UNDECIDED', detail='%s: %s (%s:%d)' % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))
        if os.environ.get('MWSA_DEBUG'): traceback.print_exc()
    finally: signal.alarm(0); alg.FACTS.release(0)
    accesses(name, t)
    return i, t, broken, time.time() - t0

def accesses(name, t):
    """an access out of range on the way, on the only path there is, spoils whatever is read there"""
    seen = set()
    for I in interp.Interp.made:
        for o in I.failed:
            if o.kind == 'assert' or (o.file, o.line) in seen: continue
            seen.add((o.file, o.line))
            t.bad('%s: access at %s:%s' % (name, o.file, o.line), '%s:%s %s' % (o.file, o.line, o.fn), o.text[:300], 'every element accessed lies inside its container')

class Check:
    def __init__(self, pid, title, level='other', method='', assumptions=(), trusted=()):
        self.pid = pid; self.title = title; self.level = level; self.method = method
        self.assumptions = list(assumptions); self.tasks = []; self.expect = 1
    def task(self, name, fn, *args, limit=None):
        self.tasks.append((name, fn, args, limit or (240 if TIER == 'quick' else 700)))
    def run(self, P, jobs=8):
        t0 = self.t0 = time.time()
        only = os.environ.get('MWSA_ONLY')
        if only: self.tasks = [t for t in self.tasks if only in t[0]]
        _G['tasks'] = self.tasks; _G['P'] = P
        out = [Task() for _ in self.tasks]; broken = []; pool = None
        known = {k['key'] for k in load_known(self.pid)}; hit = False
        _G['end'] = t0 + (560 if TIER == 'quick' else 800)
        if os.environ.get('MWSA_SERIAL') or len(self.tasks) == 1:
            it = map(_work, range(len(self.tasks)))
        else:
            pool = mp.get_context('fork').Pool(min(jobs, len(self.tasks)), maxtasksperchild=1)
            it = pool.imap_unordered(_work, range(len(self.tasks)), chunksize=1)
        for i, t, b, dt in it:
            out[i] = t
            if os.environ.get('MWSA_DEBUG'): print('task %-60s %.1fs' % (self.tasks[i][0], dt), flush=True)
            if b: broken.append((self.tasks[i][0], b)); t.add('%s: whole task' % self.tasks[i][0], 'UNDECIDED', detail=b)
            hit = hit or any(r.status == 'VIOLATED' and r.name not in known for r in t.res)
            if hit and pool and time.time() - t0 > 240:
                pool.terminate(); break
        # a part that gives no answer is undecided; no answer in most parts is no answer
        return self.finish(P, out, [b for _, b in broken] if 2 * len(broken) > len(self.tasks) else [])
    def finish(self, P, tasks, broken):
        pid = self.pid
        res = [r for t in tasks for r in t.res]
        lost = any(r.status == 'UNDECIDED' and r.name.endswith(': whole task') for r in res)
        if not broken and not lost and len(res) < self.expect:
            broken.append('only %d obligations were found, %d are expected' % (len(res), self.expect))
        if not broken and res and not any(r.status in ('PROVED', 'AGREE', 'VIOLATED') for r in res):
            broken.append('no obligation could be decided: ' + res[0].detail)
        known = load_known(pid)
        viol = [r for r in res if r.status == 'VIOLATED']
        new = []; seen = {}
        for r in viol:
            k = next((k for k in known if k['key'] == r.name), None)
            if k is None: new.append(r)
            else: seen[k['key']] = (k, r)
        rdir = os.path.join(VERIF, '_build', 'replay'); os.makedirs(rdir, exist_ok=True)
        for k, r in seen.values():
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k['what'], r.name))
        n = lambda s: sum(1 for r in res if r.status == s)
        st = {}
        funcs = set(); unm = set()
        for t in tasks:
            for k, v in t.stats.items():
                if k == 'functions': funcs |= v
                elif k == 'unmodelled': unm |= v
                elif isinstance(v, (int, float)): st[k] = st.get(k, 0) + v
        print('%s %s: %d obligations over %d functions of /repo: %d proved, %d agree, %d undecided, %d violated (%d known)  [%.1fs]' % (
            pid, self.title, len(res), len(funcs), n('PROVED'), n('AGREE'), n('UNDECIDED'), len(viol), len(viol) - len(new), time.time() - self.t0))
        if os.environ.get('MWSA_DEBUG') or os.environ.get('MWSA_VERBOSE'):
            for r in res:
                print('  %-9s %s  %s' % (r.status, r.name, ('| ' + r.detail) if r.detail and r.status != 'PROVED' else ''))
        else:
            for r in res:
                if r.status == 'UNDECIDED': print('  undecided: %s (%s)' % (r.name, r.detail[:200]))
        ev = {
            'property': pid, 'tier': TIER, 'seed': SEED, 'level': self.level,
            'coverage': {
                'explanation': self.method + '  Obligations by outcome: proved by normal form %d, agreeing under the identity test %d, undecided %d, violated %d.' % (
                    n('PROVED'), n('AGREE'), n('UNDECIDED'), len(viol)),
                'obligations': len(res), 'discharged': n('PROVED'), 'agree_not_refuted': n('AGREE'), 'undecided': n('UNDECIDED'),
                'known_findings': len(viol) - len(new),
                'tasks': len(self.tasks), 'functions_analysed': len(funcs),
                'functions': sorted(funcs)[:400], 'unmodelled_externals': sorted(unm), 'engine': st,
                'units_parsed': len(P.units) if P else 0,
                'samples': [{'obligation': r.name, 'rule': r.rule, 'where': r.where, 'status': r.status} for r in sample(res)],
                'not_proved': [{'obligation': r.name, 'status': r.status, 'detail': r.detail[:300]} for r in res if r.status in ('AGREE', 'UNDECIDED')][:200],
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        if new:
            path = os.path.join(rdir, pid + '.txt')
            with open(path, 'w') as f:
                for r in new:
                    f.write('%s\n  where: %s\n  rule: %s\n  %s\n\n' % (r.name, r.where, r.rule, r.detail))
            for r in new[:12]:
                print('  %s [%s]\n    %s' % (r.name, r.where, r.detail.replace('\n', '\n    ')[:1200]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if broken:
            for b in broken: print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
            return 3
        return 0

def sample(res, k=12):
    if len(res) <= k: return res
    step = len(res) / k
    return [res[int(i * step)] for i in range(k)]

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]

def main(check):
    """run one check from the command line"""
    try:
        t0 = time.time()
        P = ir.load()
        c = check
        c.t0 = time.time()
        rc = c.run(P)
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (check.pid, e)); rc = 3
    sys.stdout.flush()
    os._exit(rc)
