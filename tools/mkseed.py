#!/usr/bin/env python3
"""mkseed.py FILE...: builds and validates planted bugs in /verif/seeded from descriptions in /verif/tools/seeds/*.py.
Each description file defines S(id, property, srcs, edits, demo, needs, breaks)."""
import sys, os, subprocess, shutil, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SEEDED = os.path.join(HERE, 'seeded')
want = [a for a in sys.argv[2:]]; jobs = []
def S(id, prop, srcs, edits, demo, needs, breaks, cflags=''): jobs.append((id, prop, srcs, edits, demo, needs, breaks, cflags))
exec(open(sys.argv[1]).read())
SH = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -w %s -I. -I"$d" "$d"/demo.c %s -o "$t"/demo -lm || exit 3
timeout 100 "$t"/demo
'''
TESTLIST = None
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(j):
    id, prop, srcs, edits, demo, needs, breaks, cflags = j
    d = os.path.join(SEEDED, id); w = tempfile.mkdtemp(prefix='seed_'); r = os.path.join(w, 'repo'); msgs = []
    try:
        sh('cp -a /repo %s' % r); sh('git -C %s checkout -q -- .' % r)
        for f, a, b in edits:
            p = os.path.join(r, f); s = open(p, newline='').read()
            if s.count(a) != 1: return id, 'edit matches %d times: %s' % (s.count(a), a[:60])
            open(p, 'w', newline='').write(s.replace(a, b))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w', newline='').write(sh('git -C %s diff' % r).stdout)
        open(os.path.join(d, 'demo.c'), 'w').write(demo.strip('\n') + '\n'); open(os.path.join(d, 'demo.sh'), 'w').write(SH % (cflags, ' '.join(srcs)))
        if any('win32' in x for x in srcs):
            for x in os.listdir(os.path.join(HERE, 'lib/win32')): shutil.copy(os.path.join(HERE, 'lib/win32', x), d)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('sh %s/demo.sh' % d, cwd=r); b = sh('sh %s/demo.sh' % d, cwd='/repo')
        if b.returncode: msgs.append('DEMO FAILS ON UNCHANGED rc=%d %s' % (b.returncode, b.stdout[-300:]))
        if not a.returncode or a.returncode == 3: msgs.append('DEMO PASSES WITH PATCH rc=%d %s' % (a.returncode, a.stdout[-300:]))
        import re
        cur = None; n = 0
        for ln in open(os.path.join(d, 'patch.diff'), newline='').read().split('\n'):
            if ln.startswith('--- '): cur = ln[6:].strip(); continue
            m = re.match(r'@@ -(\d+)', ln)
            if m: n = int(m.group(1)); continue
            if cur and ln.startswith('-'):
                bl = sh('git -C /repo blame -s -L %d,%d HEAD -- %s' % (n, n, cur)).stdout
                if not bl.startswith('^') and not bl.startswith('daac7cd'): msgs.append('LINE NOT ORIGINAL: ' + bl.strip())
                n += 1
            elif cur and ln.startswith(' '): n += 1
        t = sh('mkdir -p %s/bt && cd %s/bt && cmake %s -DCMAKE_BUILD_TYPE=Debug >/dev/null 2>&1 && make -j4 2>&1 | grep -i "error\\|warning" ; for x in $(find . -type f -perm -u+x -name "test*"); do (cd $(dirname $x); timeout 60 ./$(basename $x) >/tmp/seed/%s.log 2>&1 || echo TESTFAIL $x $(grep -i "fail" /tmp/seed/%s.log | head -3)); done; find . -type f -perm -u+x -name "test*" | wc -l' % (w, w, r, id, id))
        if 'TESTFAIL' in t.stdout or t.stdout.strip().split('\n')[-1] == '0': msgs.append('TESTS: ' + t.stdout[-500:])
        return id, '; '.join(msgs) or 'ok (demo rc %d)' % a.returncode
    finally: shutil.rmtree(w, ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
todo = [j for j in jobs if not want or j[0] in want]
with ThreadPoolExecutor(4) as ex:
    for id, m in ex.map(one, todo): print('%-28s %s' % (id, m), flush=True)
