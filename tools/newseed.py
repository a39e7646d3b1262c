"""helper: seed(id, prop, edits, demo, needs, breaks) writes /verif/seeded/id and confirms it"""
import os, shutil, subprocess as sp, json, sys
sys.path.insert(0, '/verif/tools')
DEMO = '''#!/bin/bash
# compiles the demonstration against the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -DMPC_WALKGEN_API_H '-DMPC_WALKGEN_API=' -O1 -w -I. -Iqpsolver -I/usr/include/eigen3 -I"$here" "$here/demo.cpp" %s _build/libmpc-walkgen.a -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
'''
def seed(i, prop, edits, demo, needs, breaks, extra='', files=()):
    d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    T = '/tmp/seededit%d' % os.getpid(); shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    try:
        sp.run('git -C /repo archive --prefix=repo/ HEAD | tar x -C %s && cd %s/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (T, T), shell=True, check=True)
        for f, old, new in edits:
            p = T + '/repo/' + f; s = open(p).read(); assert s.count(old) >= 1, (f, old)
            assert s.count(old) == 1, ('ambiguous', s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sp.run('git -C %s/repo diff' % T, shell=True, capture_output=True, text=True).stdout
    finally: shutil.rmtree(T, ignore_errors=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % extra)
    for n, t in files: open(d + '/' + n, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    import mkseed
    ok = mkseed.main(i); print(i, 'OK' if ok else 'BAD', flush=True); return ok
