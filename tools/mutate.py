#!/usr/bin/env python3
"""mutate.py FILE N SEED [CHECKS]: plants N random small changes in FILE (relative to /repo), one at a time, in a
scratch copy, and prints which checks report them; survivors are for study"""
import os, random, re, shutil, subprocess as sp, sys, time
MAP = [('src/tools', 'C01 C02'), ('mpc-walkgen/tools', 'C01 C02 C03 C18'), ('src/model/humanoid_foot', 'C18 C05 C17'), ('src/interp', 'C18'), ('src/model', 'C03 C04 C05 C14'), ('src/function/humanoid_.*objective', 'C08 C14'), ('src/function/humanoid', 'C11 C14'),
       ('src/function/.*objective', 'C06 C07 C14'), ('src/function', 'C09 C10 C14'), ('src/humanoid_feet', 'C16 C17'), ('src/.*walkgen', 'C12 C13 C14'), ('src/convex', 'C19 C20'), ('qpsolver', 'C15')]
OPS = [(r'(?<![-+(=,*/<>!&|])\s\+\s(?![+=])', ' - '), (r'(?<![-+(=,*/<>!&|])\s-\s(?![-=])', ' + '), (r'\+=', '-='), (r'-=', '+='), (r'(?<!<)<(?![<=A-Za-z])', '<='), (r'<=', '<'), (r'>=', '>'), (r'(?<![->])>(?![>=(A-Za-z])', '>='),
       (r'\bX\(', 'Y('), (r'\bY\(', 'X('), (r'X\(\)', 'Y()'), (r'Y\(\)', 'X()'), (r'X_\b', 'Y_'), (r'Y_\b', 'X_'), (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '2'), (r'\b2\b(?!\.)', '1'), (r'\b2\*', ''), (r'0\.5f', '1.0f'),
       (r'[Ll]eft', lambda m: {'left': 'right', 'Left': 'Right'}[m]), (r'[Rr]ight(?!most)', lambda m: {'right': 'left', 'Right': 'Left'}[m]), (r'[Ss]up\b', 'Inf'), (r'Vel\b', 'Acc'), (r'Velocity', 'Acceleration'), (r'Velocity', 'Position'),
       (r'true', 'false'), (r'false', 'true'), (r'&&', '||'), (r'\|\|', '&&'), (r'\bUT\b', 'U'), (r'\.S\b', '.U'), (r'\bi\b(?=[\],)])', 'i+1'), (r'!move_', 'move_'), (r'\bif\s*\(', 'if(!'), (r'mass', 'totalMass'), (r'com', 'base'), (r'Com', 'Base'), (r'\bVT\b', 'V'), (r'-(?=[a-zA-Z])', ''), (r'\*(?=[a-zA-Z(])', '/'), (r'/(?=[a-zA-Z(])', '*'),
       ('DELETE', None)]
def candidates(text):
    out = []; lines = text.split('\n'); depth = 0
    for i, l in enumerate(lines):
        st = l.strip()
        if not st or st.startswith(('//', '#', 'assert', 'template', 'using', '*', '///', 'MPC_WALK', 'namespace')) or 'assert' in st: continue
        for pat, rep in OPS:
            if pat == 'DELETE':
                if re.match(r'^\s+[A-Za-z_][\w.\->()\[\], ]*(\(.*\)|[+\-*]?=.*);\s*$', l) and not re.match(r'^\s*(return|const|int|Scalar|typename|VectorX|MatrixX|Vector|std::)', l): out.append((i, '    ;'))
                continue
            for m in re.finditer(pat, l):
                if '//' in l[:m.start()]: continue
                r = rep(m.group(0)) if callable(rep) else rep
                new = l[:m.start()] + r + l[m.end():]
                if pat.startswith(r'\bif') : 
                    j = new.index('if(!') + 4; 
                    if not new.rstrip().endswith(')'): continue
                    new = new[:j] + '(' + new[j:].rstrip() + ')'
                if new != l: out.append((i, new))
    return lines, out
def main(f, n, seed, checks):
    R = '/tmp/mut%d/repo' % os.getpid(); os.makedirs(os.path.dirname(R)); sp.run(['cp', '-a', '/repo', R])
    p = os.path.join(R, f); text = open(p).read(); lines, c = candidates(text); rnd = random.Random(seed); rnd.shuffle(c); done = 0
    comp = f if f.endswith('.cpp') else None
    surv = []
    try:
        for i, new in c:
            if done >= n: break
            m = list(lines); m[i] = new; open(p, 'w').write('\n'.join(m))
            if comp and sp.run("g++ -std=c++14 -DMPC_WALKGEN_API_H '-DMPC_WALKGEN_API=' -O0 -w -fsyntax-only -I%s -I%s/qpsolver -I/usr/include/eigen3 %s" % (R, R, p), shell=True, capture_output=True).returncode: continue
            done += 1; t0 = time.time(); res = []
            for k in checks:
                r = sp.run([sys.executable, '/verif/check.py', k], env=dict(os.environ, MWSA_REPO=R), capture_output=True, text=True)
                res.append((k, r.returncode))
                if r.returncode == 1: break
            hit = res[-1][1] == 1
            print('%s %s:%d  %s  =>  %s   %s %.0fs' % ('hit ' if hit else 'MISS', f, i + 1, lines[i].strip(), new.strip(), res if not hit or any(x for _, x in res[:-1]) else res[-1][0], time.time() - t0), flush=True)
    finally: shutil.rmtree(os.path.dirname(R), ignore_errors=True)
if __name__ == '__main__':
    f = sys.argv[1]; ch = sys.argv[4].split() if len(sys.argv) > 4 else next(b for a, b in MAP if re.match(a, f)).split()
    main(f, int(sys.argv[2]), int(sys.argv[3]), ch)
