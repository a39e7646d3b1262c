"""Building the front end, running it over every translation unit of /repo, loading the result.

The front end (frontend/mwfront.cpp) is a libTooling program: it type-checks each translation unit with
the flags of the real build and prints every function body (template instantiations included) and every
class of the repository as a resolved tree.  Nothing of /repo is executed."""
import hashlib, json, os, pickle, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MWSA_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')
LLVM = '/usr/lib/llvm-18'

class AnalysisBroken(Exception):
    """an anchor vanished or the tree does not parse: neither a pass nor a violation"""

def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def _read(p):
    with open(p, 'rb') as f: return f.read()

def tool():
    src = os.path.join(VERIF, 'frontend', 'mwfront.cpp')
    out = os.path.join(BUILD, 'mwfront-' + _h(_read(src)))
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-O1', '-std=c++17',
           '-fno-rtti', '-w', '-I' + LLVM + '/include', src, LLVM + '/lib/libclang-cpp.so.18.1',
           '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib', '-o', tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken('the front end does not build: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

def units():
    r = []
    for d in ('src', 'qpsolver/src'):
        for p, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(p, f) for f in fs if f.endswith(('.cpp', '.cc', '.cxx'))]
    return sorted(r)

def all_sources():
    r = []
    for d in ('src', 'qpsolver', 'mpc-walkgen'):
        for p, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(p, f) for f in fs if f.endswith(('.cpp', '.h', '.hxx', '.hpp', '.cc'))]
    return sorted(r)

FLAGS = ['-std=c++14', '-I' + REPO, '-I' + REPO + '/qpsolver', '-I/usr/include/eigen3',
         '-I' + os.path.join(VERIF, 'stubs'), '-resource-dir=' + LLVM + '/lib/clang/18',
         '-DMPC_WALKGEN_API_H', '-DMPC_WALKGEN_API=__attribute__((visibility("default")))', '-w']

def _run(args):
    t, u = args
    r = subprocess.run([t, REPO, u, '--'] + FLAGS, capture_output=True)
    if r.returncode: return u, None, r.stderr.decode(errors='replace')[-3000:]
    return u, r.stdout, ''

class Program:
    def __init__(self):
        self.fun = {}      # id -> function
        self.rec = {}      # name -> record
        self.units = []

    def methods(self, rec):
        """all functions with a body whose class is rec"""
        return [f for f in self.fun.values() if f.get('cls') == rec]

    def find(self, rec, name, nparams=None, required=True):
        r = [f for f in self.fun.values() if f.get('cls') == rec and f['n'] == name and
             (nparams is None or len(f['params']) == nparams)]
        if len(r) > 1 and nparams is None:
            r = sorted(r, key=lambda f: f['id'])
        if not r and required:
            raise AnalysisBroken('anchor %s::%s is gone' % (rec, name))
        return r[0] if r else None

def load(verbose=False):
    t = tool()
    srcs = all_sources()
    stubs = [p for p in glob.glob(os.path.join(VERIF, 'stubs', '**', '*'), recursive=True) if os.path.isfile(p)]
    key = _h(_read(t), *sum([[os.path.relpath(p, REPO), _read(p)] for p in srcs], []),
             *[_read(p) for p in sorted(stubs)], '\0'.join(FLAGS), _read(os.path.abspath(__file__)))
    cache = os.path.join(BUILD, 'ir-' + key + '.pickle')
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f: return pickle.load(f)
        except Exception: pass
    P = Program()
    us = units()
    if not us: raise AnalysisBroken('no translation units')
    with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for u, out, err in ex.map(_run, [(t, u) for u in us]):
            if out is None: raise AnalysisBroken('%s does not parse: %s' % (u, err))
            d = json.loads(out)
            if d.get('errors'): raise AnalysisBroken('%s: errors' % u)
            P.units.append(os.path.relpath(u, REPO))
            for f in d['functions']:
                if f['id'] not in P.fun or P.fun[f['id']].get('body') is None: 
                    f['unit'] = os.path.relpath(u, REPO)
                    P.fun[f['id']] = f
            for r in d['records']:
                if r['name'] not in P.rec: P.rec[r['name']] = r
    for old in glob.glob(os.path.join(BUILD, 'ir-*.pickle')):
        try: os.unlink(old)
        except OSError: pass
    tmp = cache + '.%d.tmp' % os.getpid()
    with open(tmp, 'wb') as f: pickle.dump(P, f, protocol=4)
    os.replace(tmp, cache)
    return P

if __name__ == '__main__':
    t0 = time.time(); P = load()
    print(len(P.fun), 'functions', len(P.rec), 'records', len(P.units), 'units', '%.1fs' % (time.time() - t0))
