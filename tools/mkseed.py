#!/usr/bin/env python3
"""confirm a planted bug in a scratch copy: mkseed.py ID  (expects /verif/seeded/ID/{patch.diff,demo.sh,meta.json})
builds and tests a scratch copy of /repo with and without the patch; prints OK or what is wrong"""
import os, subprocess as sp, sys, json, shutil
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
def main(i):
    d = '/verif/seeded/' + i; T = '/tmp/seedcopy%d' % os.getpid(); R = T + '/repo'
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    sh('cp -a /repo %s && git -C %s checkout -q -- . && cp -r /opt/vp/cmake %s/cmake && grep -rl /repo %s/cmake | xargs sed -i "s#/repo#%s#g"; rm -rf %s/_build' % (R, R, T, T, R, R))
    open(T + '/build.sh', 'w').write('set -e\nexport CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8\ncmake -S %s/cmake -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS="-O1 -Wno-error" && ninja -C %s/_build\n' % (T, R, R))
    dd = '/tmp/seed_' + i; shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': continue
        shutil.copy(os.path.join(d, f), dd)
    ok = True
    try:
        b = sh('bash %s/build.sh' % T)
        r = sh('bash %s/demo.sh' % dd, cwd=R)
        if r.returncode: print('demo fails on the unchanged tree', r.stdout[-1500:]); ok = False
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        if a.returncode: print('patch does not apply', a.stdout); return False
        b = sh('bash %s/build.sh' % T)
        if b.returncode: print('does not build', b.stdout[-3000:]); return False
        r = sh('ctest --test-dir %s/_build -j8 --timeout 300' % R)
        if r.returncode or 'tests passed' not in r.stdout: print('tests now failing', r.stdout[-1500:]); ok = False
        r = sh('bash %s/demo.sh' % dd, cwd=R)
        if r.returncode == 0: print('demo passes with the patch', r.stdout[-800:]); ok = False
        else: print('demo rc', r.returncode, r.stdout[-300:])
    finally: shutil.rmtree(T, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
    return ok
if __name__ == "__main__":
    for i in sys.argv[1:]: print(i, "OK" if main(i) else "BAD")
