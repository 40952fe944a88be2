#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]
Runs every harness of a property (see specs.py), replays counterexamples natively, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: nothing could be decided."""
import sys, os, json, subprocess, tempfile, shutil, time, threading, re, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, HERE)
import specs

CLANG, OPT, LINK = 'clang', 'opt-18', 'llvm-link-18'
ASAN = 'abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8192:detect_stack_use_after_return=0:malloc_context_size=2'
UBSAN = 'halt_on_error=1:exitcode=97:print_stacktrace=0'

RUNNING = set()
def stop_running():
    for p in list(RUNNING):
        try: os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError): pass

def run(cmd, timeout=None, env=None, cwd=None, mem_gb=None):
    def lim():
        import resource
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
        os.setsid()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=lim); RUNNING.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return -9, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), True
    finally: RUNNING.discard(p)

def ensure_engine():
    exe = os.path.join(BUILD, 'symx')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e, _ = run(['make', '-s', '-C', os.path.join(HERE, 'symx'), 'OUT=' + BUILD])
        if rc: print(o + e, file=sys.stderr); sys.exit(2)
    return exe

BUDGET = float(os.environ.get('VP_BUDGET', '720'))   # seconds for a whole check
class BuildError(Exception): pass
def sh(cmd):
    rc, o, e, _ = run(cmd, timeout=300)
    if rc: raise BuildError(os.path.basename(cmd[0]) + ' ' + cmd[-3] + ': ' + (o + e)[:1200])
    return o

def cflags(h, mode):
    f = ['-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(HERE, 'harness'), '-I' + REPO, '-DCRE_TEST', '-w'] + h.get('cflags', [])
    f += ['-D%s=%s' % (k, v) for k, v in h['defs'].items()]
    return f + ['-D' + mode] if mode else f

def sources(h):
    """(path, is_repo)"""
    return [(os.path.join(REPO, s), True) for s in h.get('srcs', [])] + [(os.path.join(HERE, 'harness', h['file']), False)] + [(os.path.join(HERE, 'harness', s), False) for s in h.get('extra', [])]

def pre(isrepo, path, h):
    if path.endswith('/vp_rt.c'): return []
    r = ['-include', os.path.join(HERE, 'lib/vp_alloc.h')] if isrepo or h.get('alloc_in_harness') else []
    for i in h.get('include', []) if isrepo else []: r += ['-include', os.path.join(HERE, 'harness', i)]
    return r

def build_bc(h, d):
    outs = []
    base = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', '-g', '-fno-vectorize', '-fno-slp-vectorize', '-ffreestanding' if h.get('freestanding') else '-fno-builtin-printf'] + cflags(h, 'VP_SYMX')
    jobs = [(p, pre(r, p, h), ['-fsanitize=thread'] if r and h.get('tsan') else []) for p, r in sources(h)] + [(os.path.join(HERE, 'lib/vp_rt.c'), [], []), (os.path.join(HERE, 'lib/symx_libc.c'), [], ['-fno-builtin'])]
    for i, (p, inc, ex) in enumerate(jobs):
        o = os.path.join(d, '%d.bc' % i); sh(base + inc + ex + [p, '-o', o]); outs.append(o)
    sh([LINK] + outs + ['-o', os.path.join(d, 'l.bc')])
    sh([OPT, '-passes=' + h.get('passes', 'sroa,mem2reg'), os.path.join(d, 'l.bc'), '-o', os.path.join(d, 'all.bc')])
    return os.path.join(d, 'all.bc')

def build_native(h, d):
    exe = os.path.join(d, 'replay')
    base = ['gcc'] + h['native_opt'].split() + ['-g'] + cflags(h, 'VP_REPLAY') if 'native_opt' in h else ['gcc', '-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,alignment,pointer-overflow', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all'] + cflags(h, 'VP_REPLAY')
    objs = []
    for i, (p, r) in enumerate(sources(h) + [(os.path.join(HERE, 'lib/vp_rt.c'), False)]):
        o = os.path.join(d, 'n%d.o' % i); b = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fsanitize=thread'] + cflags(h, 'VP_REPLAY') if r and h.get('tsan') else base
        sh(b + pre(r, p, h) + ['-c', p, '-o', o]); objs.append(o)
    sh(base + objs + ['-lm', '-o', exe])
    return exe

def replay(exe, inputs, d, tag, timeout=20):
    """returns (confirmed, what)"""
    f = os.path.join(d, 'input_%s.txt' % tag)
    with open(f, 'w') as fh:
        for name, bits, v in inputs: fh.write('%d\n' % v if False else '0x%x  %s:%d\n' % (v, name, bits))
    last = ''
    for fill in ('0xbe', '0x00', '0xff', '0x01'):
        env = dict(os.environ, VP_INPUT=f, VP_FILL=fill, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN)
        rc, o, e, to = run([exe], timeout=timeout, env=env)
        if to: return True, 'does not terminate (replay exceeded %d s)' % timeout, f, fill
        if rc == 99: return True, o.strip().splitlines()[-1], f, fill
        if rc in (98, 97) or rc < 0 or 'runtime error' in e or 'AddressSanitizer' in e:
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)', e)
            return True, m.group(1) if m else 'crash rc=%d' % rc, f, fill
        last = 'rc=%d %s' % (rc, (o + e).strip()[-200:])
    return False, last, f, ''

# ------------------------------------------------------------------ engines
def run_symx(h, d, exe):
    bc = build_bc(h, d)
    out = os.path.join(d, 'out.json')
    cmd = [exe, '-j', str(h.get('j', 1)), '-t', str(h['time']), '-o', out, '-f', str(h.get('frontier', 60))]
    if 'instr' in h: cmd += ['-i', str(h['instr'])]
    if 'mem' in h: cmd += ['-m', str(h['mem'])]
    if 'rlimit' in h: cmd += ['-r', str(h['rlimit'])]
    cmd.append(bc)
    rc, o, e, to = run(cmd, timeout=h['time'] + 60, env=dict(os.environ, SYMX_REPO=REPO.rstrip('/') + '/'))
    if to or not os.path.exists(out): return dict(status='incomplete', note='engine stopped: rc=%s %s' % (rc, e[-500:]), errors=[], queries=0, solver_seconds=0, functions={}, witnesses={})
    r = json.load(open(out))
    if e.strip(): r['stderr'] = e[-500:]
    return r

CBMC_CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check', '--undefined-shift-check', '--float-overflow-check' if False else '--pointer-primitive-check']
def run_cbmc(h, d, witness=False):
    gb = os.path.join(d, 'w.gb' if witness else 'h.gb')
    base = ['goto-cc'] + cflags(h, 'VP_CBMC') + (['-DVP_WITNESS'] if witness else [])
    objs = []
    for i, (p, r) in enumerate(sources(h) + [(os.path.join(HERE, 'lib/vp_rt.c'), False)]):
        o = os.path.join(d, '%sc%d.gb' % ('w' if witness else '', i)); sh(base + pre(r, p, h) + ['-c', p, '-o', o]); objs.append(o)
    sh(base + objs + ['--function', 'harness', '-o', gb])
    cmd = ['cbmc', gb, '--json-ui', '--verbosity', '9', '--trace', '--unwinding-assertions', '--unwind', str(h.get('unwind', 10)), '--drop-unused-functions', '--no-malloc-may-fail', '--object-bits', str(h.get('object_bits', 8))] + h.get('cbmc', []) + ['--' + c for c in h.get('checks', ['signed-overflow-check', 'undefined-shift-check', 'div-by-zero-check'])]
    if h.get('stop', True): cmd += ['--stop-on-fail']
    t0 = time.time()
    rc, o, e, to = run(cmd, timeout=h['time'], mem_gb=8)
    r = dict(status='incomplete', errors=[], queries=0, solver_seconds=time.time() - t0, functions={}, witnesses={}, properties=0)
    if to: r['note'] = 'cbmc timeout'; return r
    try: js = json.loads(o)
    except ValueError: r['note'] = 'cbmc output unreadable ' + (o + e)[-300:]; return r
    for m in js:
        if 'messageText' in m:
            t = m['messageText']
            if t.startswith('SAT checker') or t.startswith('SMT2 checker'): r['queries'] += 1
            if 'variables' in t and 'clauses' in t: r['sat_size'] = t
            g = re.search(r'Runtime Solver: ([0-9.e+-]+)s', t)
            if g: r['solver_seconds'] = float(g.group(1))
            g = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if g: r['properties'] = int(g.group(1))
        fails = []
        if 'result' in m: fails = [x for x in m['result'] if x.get('status') == 'FAILURE']; r['properties'] = max(r['properties'], len(m['result']))
        if m.get('trace') and 'result' not in m: fails = [m]
        for x in fails:
            ins = []
            for s in x.get('trace', []):
                if s.get('stepType') == 'assignment' and s.get('lhs') == 'vp_in' and s.get('assignmentType') != 'actual-parameter' and s.get('sourceLocation', {}).get('function') == 'vp_bits_':
                    v = s['value']
                    if 'binary' in v: ins.append(['in', 64, int(v['binary'], 2)])
            tr = x.get('trace', [])
            last = next((s for s in reversed(tr) if s.get('stepType') == 'failure'), {})
            r['errors'].append(dict(kind='cbmc', msg=x.get('description') or last.get('reason') or x.get('property', ''), loc='%s:%s' % (last.get('sourceLocation', {}).get('function', ''), last.get('sourceLocation', {}).get('line', '')), inputs=ins))
        if m.get('cProverStatus') == 'success': r['status'] = 'proved'
        if m.get('cProverStatus') == 'failure': r['status'] = 'error'
    if r['status'] == 'error' and not r['errors']: r['status'] = 'incomplete'; r['note'] = 'failure without trace'
    if any('unwinding assertion' in (e_['msg'] or '') for e_ in r['errors']): r['unwind'] = True
    # functions encoded
    rc, o, e, _ = run(['goto-instrument', '--list-goto-functions', gb], timeout=60) if not witness else (1, '', '', 0)
    repo_funcs = set(re.findall(r'^(\w+)\s*\(', '\n'.join(open(os.path.join(REPO, s)).read() for s in h.get('srcs', [])), re.M))
    for l in o.splitlines():
        n = l.split(' ')[0].strip()
        if n in repo_funcs: r['functions'][n] = 1
    return r

def known_findings(prop):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == prop: res.append((re.compile(m.group(2)), m.group(3)))
    return res

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--only' in a: only = a[a.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); exe = ensure_engine()
    hs = [h for h in specs.harnesses(prop, tier) if not only or re.search(only, h['name'])]
    root = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir=os.environ.get('VP_TMP', '/tmp'))
    rep_root = os.path.join(HERE, 'evidence', 'replay', prop)
    shutil.rmtree(rep_root, ignore_errors=True)
    known = known_findings(prop); lock = threading.Lock(); results = []; violations = []; knowns = []
    stop = threading.Event(); pending = [len(hs)]
    def job(h):
        d = os.path.join(root, h['name']); os.makedirs(d); r = None; t1 = time.time()
        if stop.is_set(): return
        left = BUDGET - (t1 - t0)
        with lock: pending[0] -= 1; k = pending[0]
        h['time'] = max(5, int(min(h['time'], left * (0.6 if k and h.get('j', 1) == 8 else 0.95))))
        try:
            if left < 10: raise BuildError('time budget of %d s used up before this harness' % BUDGET)
            eng = h.get('engine', 'symx')
            r = run_cbmc(h, d) if eng == 'cbmc' else h['run'](h, d) if eng == 'custom' else run_symx(h, d, exe)
            r['engine'] = eng
            conf = []; unconf = []
            if r.get('errors'):
                nexe = build_native(h, d)
                for k, e in enumerate(r['errors']):
                    if 'unwinding assertion' in (e['msg'] or ''):
                        unconf.append(e['msg']); continue
                    ok, what, f, fill = replay(nexe, e['inputs'], d, str(k), h.get('replay_timeout', 20))
                    if ok:
                        kf = next((kk for kk in known if kk[0].search('%s | %s | %s | %s' % (h['name'], e['msg'], e['loc'], what))), None)
                        if kf:
                            with lock: knowns.append('%s: %s (%s)' % (h['name'], kf[1], what))
                            continue
                        dst = os.path.join(rep_root, h['name'] + '_%d' % k); os.makedirs(dst, exist_ok=True)
                        shutil.copy(f, os.path.join(dst, 'input.txt')); shutil.copy(nexe, os.path.join(dst, 'replay'))
                        with open(os.path.join(dst, 'README'), 'w') as fh:
                            fh.write('property %s harness %s defs %s\nsolver: %s: %s\nat: %s\nreal code: %s\nrun: VP_INPUT=input.txt VP_FILL=%s ./replay   (harness %s + %s, ASan+UBSan)\n' % (prop, h['name'], h['defs'], e['kind'], e['msg'], e['loc'], what, fill, h['file'], h.get('srcs')))
                        conf.append(dict(msg=e['msg'], loc=e['loc'], replay=dst, real=what, inputs=e['inputs'][:200]))
                    else: unconf.append('%s @ %s (replay: %s)' % (e['msg'], e['loc'], what))
            r['confirmed'] = conf; r['unconfirmed'] = unconf
            missing = [w for w in h.get('wit', []) if not r['witnesses'].get(w)] if eng == 'symx' else []
            if eng == 'cbmc' and r['status'] == 'proved' and h.get('wit', True):
                w = run_cbmc(h, d, witness=True)
                hit = [e for e in w['errors'] if 'witness' in (e['msg'] or '')]
                r['witnesses'] = {'cbmc': len(hit)}
                if not hit: missing = ['cbmc']
            r['missing_witness'] = missing
            if conf:
                with lock: violations.extend((h['name'], c) for c in conf)
                if not verbose: stop.set(); stop_running()
        except BuildError as e:
            r = dict(status='build-failed', note=str(e)[-2000:], errors=[], queries=0, solver_seconds=0, functions={}, witnesses={}, confirmed=[], unconfirmed=[], missing_witness=[])
        except Exception as e:
            import traceback
            r = dict(status='failed', note=traceback.format_exc()[-2000:], errors=[], queries=0, solver_seconds=0, functions={}, witnesses={}, confirmed=[], unconfirmed=[], missing_witness=[])
        r['wall'] = time.time() - t1
        with lock: results.append((h, r))
        if verbose: print('  %-28s %-10s %6.1fs q=%s %s%s' % (h['name'], r['status'], r['wall'], r.get('queries'), r.get('note', '')[-800:], (' UNCONFIRMED %s' % r['unconfirmed']) if r['unconfirmed'] else ''), {k: r[k] for k in ('paths', 'forks', 'unknown', 'unsupported_sites', 'stopped', 'states_left', 'missing_witness', 'solver_seconds') if k in r and (r[k] or k == 'paths')}, flush=True)
        if not verbose: shutil.rmtree(d, ignore_errors=True)
    # heavy harnesses (own worker processes) first
    order = sorted(hs, key=lambda h: -h.get('first', 0) * 10**6 - h.get('j', 1) * 1000 - h['time'])
    cap = 8; sem = threading.Semaphore(cap)
    cv = threading.Condition(); free = [cap]
    def slot(h):
        n = min(cap, h.get('j', 1))
        with cv:
            while free[0] < n: cv.wait()
            free[0] -= n
        try: job(h)
        finally:
            with cv: free[0] += n; cv.notify_all()
    with ThreadPoolExecutor(max_workers=16) as ex: list(ex.map(slot, order))
    shutil.rmtree(root, ignore_errors=True)
    # fallbacks: harnesses marked fallback_for are only needed when the primary could not be built
    decided = [r for h, r in results if r['status'] in ('proved', 'error')]
    funcs = sorted({f for h, r in results for f in r.get('functions', {})})
    cov = dict(explanation='Symbolic execution of the real source (regenerated from %s on this run); every branch, memory access and assertion decided by an SMT/SAT solver for all values within the stated bounds. status proved = every path finished and every query was unsat.' % REPO,
        functions_encoded=funcs + sorted({x for h, r in results for x in h.get('encodes', [])}), queries_discharged=sum(r.get('queries', 0) or 0 for h, r in results), solver_seconds=round(sum(r.get('solver_seconds', 0) or 0 for h, r in results), 3),
        paths=sum(r.get('paths', 0) for h, r in results), harnesses_proved=sum(1 for h, r in results if r['status'] == 'proved' and not r['missing_witness']), harnesses_total=len(hs),
        unconfirmed_counterexamples=[u for h, r in results for u in r['unconfirmed']],
        harnesses=[dict(name=h['name'], engine=h.get('engine', 'symx'), status=('vacuous' if r['missing_witness'] else r['status']), bounds=h['bounds'], defs=h['defs'], sources=h.get('srcs', []), queries=r.get('queries', 0), sat=r.get('sat'), unsat=r.get('unsat'), unknown=r.get('unknown'), paths=r.get('paths'), assertions=r.get('assertions', r.get('properties')), safety_checks=r.get('checks'), solver_seconds=round(r.get('solver_seconds', 0) or 0, 3), wall_s=round(r['wall'], 2), witnesses=r.get('witnesses'), missing_witness=r['missing_witness'], unsupported=r.get('unsupported_sites'), stopped=r.get('stopped'), states_left=r.get('states_left'), note=r.get('note'), unconfirmed=r['unconfirmed'], functions=sorted(r.get('functions', {}))) for h, r in sorted(results, key=lambda x: x[0]['name'])])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=specs.ASSUMPTIONS + specs.assumptions(prop), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    for k in sorted(set(knowns)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        for n, c in violations[:5]:
            print('harness %s: %s at %s; real code: %s' % (n, c['msg'], c['loc'], c['real']))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][1]['replay']))
        return 1
    inc = [(h['name'], r['status'], r.get('note', '')) for h, r in results if r['status'] != 'proved' or r['missing_witness']]
    for i in inc: print('note: harness %s: %s %s' % (i[0], i[1], i[2][:300].replace('\n', ' ')))
    if not decided: print('nothing decided for %s' % prop); return 2
    print('%s: held on everything explored (%d/%d harnesses complete, %d queries, %.1f s solver, %.1f s wall)' % (prop, cov['harnesses_proved'], len(hs), cov['queries_discharged'], cov['solver_seconds'], time.time() - t0))
    return 0
if __name__ == '__main__': sys.exit(main())
