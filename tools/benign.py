#!/usr/bin/env python3
"""benign.py [ID...]: applies behaviour-preserving edits (tools/benign/*.py) to scratch copies of /repo, runs its tests
and the checks of the properties concerned; every check has to stay quiet."""
import sys, os, subprocess, shutil, tempfile, glob, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); jobs = []
def B(id, props, file, *edits): jobs.append((id, props.split(), file, edits))
for f in sorted(glob.glob(os.path.join(HERE, 'tools/benign/*.py'))): exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = sys.argv[1:]; by = {}
for j in jobs: by.setdefault(j[0], []).append(j)
for id, js in by.items():
    if want and not any(id == w or id.startswith(w + '-') for w in want): continue
    w = tempfile.mkdtemp(prefix='benign_'); r = w + '/repo'; v = w + '/v'
    try:
        sh('cp -a /repo %s; git -C %s checkout -q -- .; cp -a %s %s; rm -rf %s/.git %s/seeded' % (r, r, HERE, v, v, v)); bad = 0
        for _, props, file, edits in js:
            p = os.path.join(r, file); s = open(p, newline='').read()
            for a, b in edits:
                if s.count(a) != 1: print('%-24s EDIT matches %d times: %r' % (id, s.count(a), a[:70])); bad = 1
                s = s.replace(a, b)
            open(p, 'w', newline='').write(s)
        if bad: continue
        t = sh('mkdir %s/bt && cd %s/bt && cmake %s -DCMAKE_BUILD_TYPE=Debug >/dev/null 2>&1; make -j8 2>&1 | grep -iE "error|warning"; for x in $(find . -type f -perm -u+x -name "test*"); do (cd $(dirname $x); timeout 60 ./$(basename $x) >/dev/null 2>&1 || echo TESTFAIL $x); done' % (w, w, r))
        if t.stdout.strip(): print('%-24s TESTS: %s' % (id, t.stdout[:600]))
        for pr in [x for j in js for x in j[1]]:
            s = time.time(); o = sh('VERIF_SEED=1 VERIF_TIER=quick VP_REPO=%s timeout 900 python3 check.py %s --tier quick' % (r, pr), cwd=v)
            L = [l for l in o.stdout.strip().split('\n')]
            flag = 'ok  ' if o.returncode == 0 and 'held on everything' in o.stdout else 'BAD '
            print('%-24s %s %s rc=%d %ds %s' % (id, pr, flag, o.returncode, time.time() - s, '' if flag == 'ok  ' else ' | '.join(L)[:700]), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
