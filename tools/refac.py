#!/usr/bin/env python3
"""Behaviour-preserving edits: every check named has to stay quiet (exit 0) on each of them.
usage: refac.py [NAME-SUBSTRING] ; works on scratch copies of /repo"""
import os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
R = []
def rf(name, checks, *edits): R.append((name, checks.split(), edits))
exec(open(os.path.join(HERE, 'refactorings.py')).read())

def run(name, checks, edits):
    d = tempfile.mkdtemp(prefix='refac_'); repo = os.path.join(d, 'repo')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, a, b in edits:
            p = os.path.join(repo, f); t = open(p).read()
            if a not in t: return ['BAD EDIT in %s: %s' % (f, a[:70])]
            open(p, 'w').write(t.replace(a, b, 1))
        diff = subprocess.run(['git', '-C', repo, 'diff', '--stat'], capture_output=True, text=True).stdout
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), c], env=dict(os.environ, MWSA_REPO=repo), capture_output=True, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith(c + ' ')]
            und = sum('undecided:' in x for x in r.stdout.splitlines())
            if r.returncode or und: out.append('%s exit %d undecided %d\n%s' % (c, r.returncode, und, '\n'.join('      ' + x[:400] for x in (r.stdout + r.stderr[-600:]).splitlines()[:8])))
            else: out.append('%s ok %s' % (c, l[0].split(':')[1] if l else ''))
    finally: shutil.rmtree(d)
    return out

if __name__ == '__main__':
    pat = sys.argv[1] if len(sys.argv) > 1 else ''; only = sys.argv[2:]
    for name, checks, edits in R:
        if pat in name:
            print('== ' + name, flush=True)
            for l in run(name, [c for c in checks if not only or c in only], edits): print('   ' + l, flush=True)
