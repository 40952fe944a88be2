"""Harness table: which harness decides which property, with which bounds, per tier."""
ASSUMPTIONS = [
    'LP64 x86-64 semantics as compiled by clang 18 for symx and by goto-cc for CBMC',
    'library functions (memcpy, memcmp, strlen, ...) behave as the C standard says; malloc returns fresh disjoint blocks, realloc always moves',
    'statements beyond the listed bounds are not claimed',
]
import os; HERE_ = os.path.dirname(os.path.abspath(__file__))
_S = {}; _A = {}
def assumptions(p): return _A.get(p, [])
def H(prop, name, file, srcs, bounds, quick=None, thorough=None, time=(100, 600), **kw):
    """quick/thorough: dict of defines, or None to leave the harness out of that tier; thorough defaults to quick"""
    for tier, d, t in (('quick', quick, time[0]), ('thorough', quick if thorough is None else thorough, time[1])):
        if d is None: continue
        h = dict(kw); h.update(name=name, file=file, srcs=srcs, defs=dict(d), time=t, bounds=bounds % d if d else bounds)
        for k in list(h):
            if k.endswith('_thorough'):
                if tier == 'thorough': h[k[:-9]] = h[k]
                del h[k]
        _S.setdefault((prop, tier), []).append(h)
def harnesses(p, tier): return _S[(p, tier)]
def props(): return sorted({p for p, t in _S})

# ---------------------------------------------------------------- red-black tree
RB = ['data/rbtree.c']
RBB = 'one operation on every valid red-black tree of height <= %(H)d (symbolic shape and colours, every key order), symbolic key'
H('C20', 'insert', 'rb_insert.c', RB, RBB, dict(H=5), dict(H=6), j=8, wit=['insert'])
H('C21', 'remove', 'rb_remove.c', RB, RBB, dict(H=5), dict(H=6), j=8, wit=['remove'])
NOT_CLAIMED = {}
TALL = 'valid trees of %(DEPTH)d levels (alternating colours, 6 shapes, red or black siblings; subtrees off the path summarised), operations at their bottom'
H('C20', 'tall', 'rb_tall.c', RB, TALL, dict(DEPTH=60, OP=0), wit=['end'])
H('C21', 'tall', 'rb_tall.c', RB, TALL, dict(DEPTH=60, OP=1), wit=['end'])
H('C22', 'tall', 'rb_tall.c', RB, TALL + ', lookups of every node on the path, steps, ends', dict(DEPTH=60, OP=2), j=4, wit=['end'])

# ---------------------------------------------------------------- base64, hex
B64 = ['encode/base64.c']; HEX = ['encode/hex.c']
HP = 'sroa,mem2reg,simplifycfg<sink-common-insts;hoist-common-insts>,instcombine,simplifycfg'
H('C01', 'exact', 'b64_enc.c', B64, 'every input of 0..%(N)d bytes, every dialect with distinct characters, output room -1..+2', dict(N=40), dict(N=200), j=8, wit=['end'])
H('C01', 'long', 'b64_long.c', B64, 'inputs of %(LEN)d-2..%(LEN)d bytes, first 6 and last 8 symbolic, default dialect', dict(LEN=1030), dict(LEN=70000), instr=30000000, wit=['end'])
H('C02', 'sizes', 'b64_size.c', B64, 'every 32-bit input size, every dialect, output sizes 0..9', dict(), wit=['end'])
H('C02', 'bounds', 'b64_enc.c', B64, 'every input of 0..%(N)d bytes, every dialect, output room -1..+2', dict(N=24), dict(N=90), j=4, wit=['end'])
H('C03', 'roundtrip', 'b64_rt.c', B64, 'every input of 0..%(N)d bytes, every dialect, padded / unpadded / stripped', dict(N=5), dict(N=9), j=8, wit=['end'])
H('C03', 'default', 'b64_rt.c', B64, 'every input of 0..%(N)d bytes, default dialect, padded / stripped', dict(N=32, DIALECTS=0), dict(N=120, DIALECTS=0), j=8, wit=['end'])
H('C03', 'long', 'b64_long.c', B64, 'inputs of %(LEN)d-2..%(LEN)d bytes, first 6 and last 8 symbolic, default dialect', dict(LEN=1030, DECODE=1), dict(LEN=70000, DECODE=1), instr=30000000, wit=['end'])
H('C04', 'arbitrary', 'b64_dec.c', B64, 'every byte string of 0..%(N)d bytes, every dialect, output room -1..+1', dict(N=12), dict(N=28), j=8, wit=['end'])
H('C04', 'default', 'b64_dec.c', B64, 'every byte string of 0..%(N)d bytes, default dialect, output room -1..+1', dict(N=24, DIALECTS=0), dict(N=64, DIALECTS=0), j=8, wit=['end'])
H('C05', 'exact', 'hex.c', HEX, 'every input of 0..%(N)d bytes, output room -1..+2', dict(N=24, ENC=1), dict(N=128, ENC=1), j=4, wit=['end'])
H('C05', 'sizes', 'hex.c', HEX, 'every 32-bit input size, output sizes 0..9', dict(SIZE=1), wit=['end'])
H('C05', 'long', 'hex.c', HEX, '%(LEN)d bytes, first and last 4 symbolic', dict(LONG=1, LEN=1030), dict(LONG=1, LEN=70000), instr=30000000, wit=['end'])
H('C06', 'arbitrary', 'hex.c', HEX, 'every input of 0..%(N)d bytes, output room -1..+1', dict(N=6, DEC=1), dict(N=8, DEC=1), j=8, wit=['end'])
H('C06', 'window', 'hex.c', HEX, 'inputs of %(LO)d..%(N)d bytes, every byte value at each %(WINDOW)d consecutive positions, other positions valid digits', dict(LO=7, N=20, DEC=1, WINDOW=2), dict(LO=9, N=70, DEC=1, WINDOW=3), j=8, wit=['end'])
H('C06', 'sizes', 'hex.c', HEX, 'every 32-bit input size, output sizes 0..5', dict(DSIZE=1), wit=['end'])
H('C06', 'long', 'hex.c', HEX, '%(LEN)d bytes, first and last byte symbolic', dict(LONG=2, LEN=1030), dict(LONG=2, LEN=70000), instr=30000000, wit=['end'])

# ---------------------------------------------------------------- hashes
def havoc_engine(func, kind, src):
    """loops replaced by one arbitrary iteration; CBMC decides that no counter or size arithmetic can wrap or truncate there"""
    def go(h, d):
        import subprocess, os, json, re, time
        from check import sh, run, REPO, HERE
        t0 = time.time(); a = os.path.join(d, 'a.gb'); b = os.path.join(d, 'b.gb')
        sh(['goto-cc', '-DVP_CBMC', '-DKIND=%d' % kind, '-I' + HERE + '/lib', '-I' + REPO, os.path.join(HERE, 'harness', h['file']), os.path.join(REPO, src), '--function', 'harness', '-o', a])
        sh(['goto-instrument', '--havoc-loops', a, b])
        rc, o, e, to = run(['cbmc', b, '--json-ui', '--conversion-check', '--signed-overflow-check', '--unsigned-overflow-check', '--no-pointer-check', '--no-bounds-check', '--unwind', '1', '--drop-unused-functions'], timeout=h['time'])
        r = dict(status='incomplete', errors=[], queries=0, solver_seconds=time.time() - t0, functions={func: 1}, witnesses={'end': 1}, properties=0)
        if to: return r
        for m in json.loads(o):
            if 'result' in m:
                r['properties'] = r['queries'] = len(m['result']); r['status'] = 'proved'
                bad = [x for x in m['result'] if x['status'] != 'SUCCESS' and x.get('sourceLocation', {}).get('function') != 'harness' and not ('unsigned' in x['description'] and '*' in x['description'])]
                if bad:
                    r['status'] = 'error'
                    for n in (2**31 + 17, 2**32 + 17): r['errors'].append(dict(kind='overflow', msg=bad[0]['description'], loc='%s:%s' % (func, bad[0].get('sourceLocation', {}).get('line')), inputs=[['n', 64, n]]))
        return r
    return go
for p, k, nm, fn, src, w in (('C07', 0, 'crc32', 'crc32', 'hash/crc32.c', 3), ('C08', 1, 'fnv32', 'fnv1a_32', 'hash/fnv1a.c', 4), ('C08', 2, 'fnv64', 'fnv1a_64', 'hash/fnv1a.c', 4)):
    S = ['hash/crc32.c', 'hash/fnv1a.c']
    H(p, nm + '-exact', 'hash.c', S, 'every content of 0..%(N)d bytes, every starting value and split (FNV)', dict(KIND=k, N=24 if k else 20), dict(KIND=k, N=64), j=4, wit=['end'])
    H(p, nm + '-short', 'hash.c', S, 'every content of 0..%(N)d bytes, every starting value and split (FNV)', dict(KIND=k, N=3), dict(KIND=k, N=4), wit=['end'])
    H(p, nm + '-long', 'hash.c', S, '%(LO)d..%(N)d bytes, first and last %(WIN)d symbolic', dict(KIND=k, LO=65599, N=65601, WIN=w) if k else dict(KIND=k, LO=1023, N=1025, WIN=2, TAIL=1), dict(KIND=k, LO=65599, N=65601, WIN=w, **({} if k else {'TAIL': 1})), instr=40000000, j=3, wit=['end'])
    H(p, nm + '-huge', 'hash_huge.c', [src], 'loop body at every iteration of every length below 2^64: no counter wraps or truncates; suspects replayed with 2^31+17 and 2^32+17 bytes', dict(KIND=k), engine='custom', run=havoc_engine(fn, k, src), replay_timeout=45, native_opt='-O1 -fwrapv', wit=['end'])
H('C07', 'crc32-bitwise', 'hash.c', S, 'bitwise definition, every content of 0..2 bytes', dict(KIND=3, N=2), wit=['end'])

# ---------------------------------------------------------------- buffer, stack, arrays
BUF = ['data/buffer.c']
BB = '%(K)d operation(s) from every state with size 0..%(S)d and capacity natural or set 0..%(SLACK)d*%(STEP)d-1 above, counts 0..%(C)d and every huge count, all contents'
BG = '%(K)d operation(s) from sizes at every capacity rounding threshold (quick: 12 up to 481, 7 counts up to 256; thorough: 23 up to 1100, 17 counts up to 2100), offsets 0, half, last, end, all contents'
H('C09', 'step', 'buf.c', BUF, BB, dict(K=1, S=10, C=9, SLACK=4, STEP=7), dict(K=1, S=20, C=20, SLACK=4, STEP=9), j=8, alloc_in_harness=1, wit=['end'])
H('C09', 'history', 'buf.c', BUF, BB, dict(K=2, S=4, C=4, SLACK=0, STEP=1), dict(K=3, S=2, C=2, SLACK=0, STEP=1), j=8, alloc_in_harness=1, wit=['end'])
H('C09', 'thresholds', 'buf.c', BUF, BG, dict(K=1, BIG=2, SLACK=1, STEP=1, S=0, C=0), dict(K=1, BIG=1, SLACK=3, STEP=800, S=0, C=0), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
H('C10', 'fail', 'buf.c', BUF, BB + ', every allocation may fail', dict(K=2, S=2, C=2, SLACK=1, STEP=1, FAIL=1), dict(K=2, S=4, C=4, SLACK=2, STEP=5, FAIL=1), j=8, alloc_in_harness=1, wit=['end'])
H('C10', 'thresholds', 'buf.c', BUF, BG + ', every allocation may fail', dict(K=1, BIG=2, SLACK=1, STEP=1, S=0, C=0, FAIL=1), dict(K=1, BIG=1, SLACK=3, STEP=700, S=0, C=0, FAIL=1), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
H('C10', 'huge', 'buf_huge.c', BUF, 'every count above 1100 up to 2^64-1, sizes 0..3, all front ends', dict(), j=4, alloc_in_harness=1, wit=['end'])
H('C11', 'ends', 'buf.c', BUF, BB + ', then clear, acquire, swap or nothing; every allocation may fail', dict(K=1, S=5, C=5, SLACK=3, STEP=7, FAIL=1, ENDS=1), dict(K=2, S=3, C=2, SLACK=2, STEP=9, FAIL=1, ENDS=1), j=8, alloc_in_harness=1, wit=['end'])
H('C11', 'thresholds', 'buf.c', BUF, BG + ', every allocation may fail', dict(K=1, BIG=2, SLACK=2, STEP=900, S=0, C=0, FAIL=1), dict(K=1, BIG=1, SLACK=3, STEP=500, S=0, C=0, FAIL=1, ENDS=1), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
H('C12', 'history', 'stack.c', BUF, 'every history of %(K)d typed or raw pushes and pops, every value, raw blocks of 1..%(RAW)d bytes', dict(K=3, FAIL=0, RAW=2), dict(K=4, FAIL=0, RAW=4), j=8, alloc_in_harness=1, wit=['end'])
H('C12', 'fail', 'stack.c', BUF, 'every history of %(K)d pushes and pops, every allocation may fail, raw blocks of 1..%(RAW)d bytes', dict(K=2, FAIL=1, RAW=11), dict(K=3, FAIL=1, RAW=11), j=8, alloc_in_harness=1, wit=['end'])
H('C12', 'deep', 'stack.c', BUF, '%(DEEP)d pushes of any type through every growth and shrink threshold, then pops, all values', dict(DEEP=60, FAIL=0, RAW=11), dict(DEEP=160, FAIL=0, RAW=11), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
for T in 'int8 uint8 int16 uint16 int32 uint32 int64 uint64 ptr'.split():
    D = dict(T=T, **({'PTR': 1} if T == 'ptr' else {}))
    H('C13', T, 'array.c', BUF, '%(K)d operation(s) on arrays of %(T)s with 0..%(S)d elements, counts 0..%(C)d, every allocation may fail', dict(K=1, S=6, C=5, FAIL=1, OPLO=0, OPHI=8, **D), dict(K=2, S=5, C=3, FAIL=1, OPLO=0, OPHI=8, **D), alloc_in_harness=1, wit=['end'])
    H('C13', T + '-huge', 'array.c', BUF, 'arrays of %(T)s with 0..%(S)d elements, range operations with every huge count', dict(K=1, S=2, C=0, FAIL=0, OPLO=9, OPHI=11, **D), alloc_in_harness=1, wit=['end'])
    H('C13', T + '-history', 'array.c', BUF, '%(K)d operations on an empty array of %(T)s, counts 0..%(C)d', dict(K=2, S=1, C=3, FAIL=0, OPLO=0, OPHI=8, **D), dict(K=3, S=0, C=2, FAIL=0, OPLO=0, OPHI=8, **D), alloc_in_harness=1, wit=['end'])

# ---------------------------------------------------------------- lists
for p, k, nm in (('C14', 0, 'LIST'), ('C15', 1, 'SLIST'), ('C16', 2, 'QLIST')):
    H(p, 'step', 'list.c', [], 'two operations on every ' + nm + ' of 0..%(PRE)d nodes', dict(KIND=k, N=14, PRE=12, K=2, ANYFRESH=0), dict(KIND=k, N=44, PRE=42, K=2, ANYFRESH=0), j=8, wit=['end'])
    H(p, 'history', 'list.c', [], 'every history of %(K)d operations on %(N)d nodes', dict(KIND=k, N=3, PRE=0, K=4, ANYFRESH=1), dict(KIND=k, N=5, PRE=0, K=6, ANYFRESH=0), j=8, wit=['end'])

# ---------------------------------------------------------------- hash table
HT = ['data/htable.c']
HB = ' (hash values 472*q + residue, every q below 2^23, %(RES)d residues chosen against the plane sizes)'
H('C17', 'history-2', 'htable.c', HT, 'every history of %(K)d operations on %(N)d nodes' + HB, dict(N=2, K=5, RES=8, FAIL=0), dict(N=2, K=7, RES=8, FAIL=0), j=4, wit=['end'])
H('C17', 'history-3', 'htable.c', HT, 'every history of %(K)d operations on %(N)d nodes' + HB, dict(N=3, K=5, RES=3, FAIL=0), dict(N=3, K=6, RES=4, FAIL=0), j=8, wit=['end'])
H('C17', 'history-4', 'htable.c', HT, 'every history of %(K)d operations on %(N)d nodes' + HB, dict(N=4, K=5, RES=1, FAIL=0), dict(N=4, K=6, RES=2, FAIL=0), j=8, wit=['end'])
HQ = ' (hash values 472*q + residue, %(QS)d multiples q up to 8388607, %(RES)d residues)'
H('C17', 'history-q', 'htable.c', HT, 'every history of %(K)d operations on %(N)d nodes' + HQ, dict(N=3, K=4, RES=2, QS=2, FAIL=0), dict(N=3, K=5, RES=3, QS=3, FAIL=0), first=1, j=8, wit=['end'])
H('C18', 'grow-q', 'htable.c', HT, '%(N)d nodes put in before, during or after %(FILL)d fillers, then removal down to one of %(STAGES)d populations, refill, drain' + HQ, dict(N=2, RES=3, QS=2, FAIL=0, FILL=70, PATTERN=1, STAGES=4), dict(N=2, RES=5, QS=4, FAIL=0, FILL=70, PATTERN=1, STAGES=5), first=1, j=8, instr=100000000, wit=['end'])
H('C18', 'grow3-q', 'htable.c', HT, '%(N)d nodes put in before, during or after %(FILL)d fillers, then removal down to one of %(STAGES)d populations, refill, drain' + HQ, dict(N=1, RES=5, QS=3, FAIL=0, FILL=186, PATTERN=2, STAGES=6), dict(N=1, RES=8, QS=4, FAIL=0, FILL=440, PATTERN=2, STAGES=7), first=1, j=8, instr=100000000, wit=['end'])
H('C19', 'fini-q', 'htable.c', HT, 'three planes, then removal down to one of %(STAGES)d populations, teardown; %(N)d symbolic nodes' + HQ, dict(N=1, RES=3, QS=2, FAIL=0, FILL=186, PATTERN=2, STAGES=7, FINI=1), dict(N=1, RES=5, QS=4, FAIL=0, FILL=430, PATTERN=2, STAGES=7, FINI=1), first=1, j=8, instr=300000000, wit=['end'])
for pat, nm in ((0, 'sequential'), (1, 'clustered'), (2, 'scattered'), (3, 'one-slot')):
    GB = '%(N)d nodes with symbolic hashes put in before, during or after %(FILL)d ' + nm + ' fillers, then removal down to one of %(STAGES)d populations, refill, drain' + HB
    H('C18', 'grow-' + nm, 'htable.c', HT, GB, dict(N=2, RES=6, FAIL=0, FILL=70, PATTERN=pat, STAGES=5), dict(N=3, RES=5, FAIL=0, FILL=70, PATTERN=pat, STAGES=5), j=8, instr=100000000, wit=['end'])
    H('C18', 'grow3-' + nm, 'htable.c', HT, GB, dict(N=1, RES=8, FAIL=0, FILL=186, PATTERN=pat, STAGES=6), dict(N=2, RES=5, FAIL=0, FILL=190, PATTERN=pat, STAGES=6), j=8, instr=100000000, wit=['end'])
H('C18', 'grow4', 'htable.c', HT, GB, dict(N=1, RES=2, FAIL=0, FILL=440, PATTERN=2, STAGES=7), dict(N=1, RES=4, FAIL=0, FILL=440, PATTERN=2, STAGES=7), j=8, instr=300000000, wit=['end'])
H('C19', 'fini', 'htable.c', HT, 'teardown after every history of %(K)d operations on %(N)d nodes, every allocation may fail' + HB, dict(N=3, K=3, RES=2, FAIL=1, FINI=1), dict(N=3, K=4, RES=3, FAIL=1, FINI=1), j=8, wit=['end'])
H('C19', 'fail-grow', 'htable.c', HT, 'growth past a plane, every allocation may fail, teardown' + HB, dict(N=1, RES=3, FAIL=1, FILL=62, PATTERN=0, STAGES=4, FINI=1), dict(N=2, RES=3, FAIL=1, FILL=63, PATTERN=1, STAGES=4, FINI=1), j=8, instr=30000000, wit=['end'])
H('C19', 'fini-grow3', 'htable.c', HT, 'three planes, then removal down to one of %(STAGES)d populations, teardown; %(N)d symbolic nodes' + HB, dict(N=1, RES=3, FAIL=0, FILL=186, PATTERN=2, STAGES=7, FINI=1), dict(N=1, RES=5, FAIL=0, FILL=430, PATTERN=2, STAGES=7, FINI=1), j=8, instr=300000000, wit=['end'])
H('C19', 'fail-grow3', 'htable.c', HT, 'growth to three planes with any one of the allocations failing, then removal and teardown' + HB, dict(N=1, RES=2, FAIL=2, FILL=186, PATTERN=0, STAGES=7, FINI=1), dict(N=1, RES=4, FAIL=2, FILL=190, PATTERN=1, STAGES=7, FINI=1), j=8, instr=300000000, wit=['end'])
H('C19', 'fini-grow', 'htable.c', HT, 'teardown with several planes and every chain shape of %(N)d symbolic nodes' + HB, dict(N=2, RES=4, FAIL=0, FILL=70, PATTERN=1, STAGES=5, FINI=1), dict(N=2, RES=5, FAIL=0, FILL=190, PATTERN=1, STAGES=6, FINI=1), j=8, instr=100000000, wit=['end'])
RC = 'every valid red-black tree of height <= %(H)d (symbolic shape, colours, comparator results), '
H('C22', 'lookup', 'rb_cursor.c', RB, RC + 'every key, then every sequence of %(STEPS)d next/prev steps', dict(H=5, MODE=0, STEPS=3), dict(H=6, MODE=0, STEPS=5), j=8, wit=['hit', 'miss'])
H('C22', 'walk', 'rb_cursor.c', RB, RC + 'full walks from both ends, then %(STEPS)d steps in any direction', dict(H=4, MODE=1, STEPS=1, WALK=100), dict(H=4, MODE=1, STEPS=3, WALK=100), j=8, wit=['hit', 'miss'])
H('C22', 'ends', 'rb_cursor.c', RB, RC + '%(WALK)d steps from both ends', dict(H=5, MODE=1, STEPS=1, WALK=5), dict(H=6, MODE=1, STEPS=1, WALK=8), j=8, wit=['hit', 'miss'])
H('C23', 'fini', 'rb_fini.c', RB, RC + 'every returned node freed at once, then reuse', dict(H=4), dict(H=4), j=8, wit=['end'])

# ---------------------------------------------------------------- values
VAL = ['data/value.c']
CK = ['signed-overflow-check', 'undefined-shift-check', 'div-by-zero-check', 'bounds-check', 'pointer-check', 'conversion-check']
VB = 'every stored bit pattern of every type'
H('C24', 'store', 'value_scalar.c', VAL, 'every bit pattern of every scalar type, every getter, arbitrary previous memory content', dict(MODE=0), j=8, alloc_in_harness=1, wit=['end'])
H('C24', 'float', 'value_scalar.c', VAL, 'every bit pattern of float and double (bit-precise floating point)', dict(MODE=4, FROM=6, TO=7), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C25', 'int-int', 'value_scalar.c', VAL, 'every integer of every type to every integer type', dict(MODE=1, FROM=2, TO=5), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C25', 'float-int', 'value_scalar.c', VAL, 'every float whose rounded value fits, to every integer type', dict(MODE=1, FROM=6, TO=6), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C25', 'double-int', 'value_scalar.c', VAL, 'every double whose rounded value fits, to every integer type', dict(MODE=1, FROM=7, TO=7), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C25', 'float-double', 'value_scalar.c', VAL, VB + ' to float and double', dict(MODE=2, FROM=2, TO=7), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C26', 'other', 'value_scalar.c', VAL, 'every value of every non-float type, every target type', dict(MODE=3, FROM=0, TO=5), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C26', 'containers', 'value_scalar.c', VAL, 'strings, arrays, dictionaries, every target type', dict(MODE=3, FROM=8, TO=10), alloc_in_harness=1, wit=['end'])
for f, k in (('float', 6), ('double', 7)):
    for nm, lo, hi in (('int32', 2, 2), ('uint32', 3, 3), ('int64', 4, 4), ('uint64', 5, 5), ('float', 6, 7), ('bool', 0, 1), ('string', 8, 10)):
        H('C26', f + '-' + nm, 'value_scalar.c', VAL, 'every ' + f + ' against ' + nm + ('' if 'int' in nm else ' and related types'), dict(MODE=3, FROM=k, TO=k, TLO=lo, THI=hi), time=(150, 900), engine='cbmc', unwind=50, alloc_in_harness=1)
H('C27', 'exact', 'value_string.c', VAL, 'every content of every length 0..%(N)d, allocation failure', dict(MODE=0, BIG=0, FAIL=1, N=24), dict(MODE=0, BIG=0, FAIL=1, N=140), j=4, alloc_in_harness=1, wit=['end'])
H('C27', 'boundaries', 'value_string.c', VAL, '%(BIG)d lengths around 128, 256, 2048 and (thorough) 16384, first and last 3 bytes symbolic', dict(MODE=0, BIG=11, FAIL=1), dict(MODE=0, BIG=15, FAIL=1), j=4, instr=5000000, alloc_in_harness=1, wit=['end'])
H('C27', 'any-length', 'value_string.c', VAL, 'every length %(LO)s..%(HI)s, every position (memory as arrays of symbolic size)', dict(MODE=1, LO=100, HI='4294967400'), engine='cbmc', unwind=12, alloc_in_harness=1, native_opt='-O1', replay_timeout=60)
H('C27', 'any-length-64', 'value_string.c', VAL, 'every length %(LO)s..%(HI)s, every position (memory as arrays of symbolic size)', dict(MODE=1, LO='4294967400', HI='36028797018963000'), engine='cbmc', unwind=12, alloc_in_harness=1, native_opt='-O1', replay_timeout=60)
H('C27', 'huge', 'value_string.c', VAL, 'every length above 100000 up to 2^64-1 when the heap refuses it', dict(MODE=2), alloc_in_harness=1, wit=['end'])
VA = 'every history of %(K)d operations (append, insert anywhere, remove, remove range, clean, every out-of-range index) on arrays of 0..%(S)d members'
VAB = '%(K)d operation on arrays at %(BIGMAX)d sizes around every growth and shrink threshold (8..126), optionally shrunk first'
H('C28', 'step', 'value_array.c', VAL, VA, dict(S=6, K=1, BIGMAX=0, KINDS=0, FAIL=0), dict(S=40, K=1, BIGMAX=0, KINDS=0, FAIL=0), j=8, alloc_in_harness=1, wit=['end'])
H('C28', 'history', 'value_array.c', VAL, VA, dict(S=3, K=2, BIGMAX=0, KINDS=0, FAIL=0), dict(S=2, K=3, BIGMAX=0, KINDS=0, FAIL=0), j=8, alloc_in_harness=1, wit=['end'])
H('C28', 'thresholds', 'value_array.c', VAL, VAB, dict(S=0, K=1, BIGMAX=8, KINDS=0, FAIL=0), dict(S=0, K=1, BIGMAX=12, KINDS=0, FAIL=0), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
H('C29', 'history', 'value_array.c', VAL, VA + ', members of every kind owning memory, every allocation may fail', dict(S=3, K=2, BIGMAX=0, KINDS=1, FAIL=1), dict(S=2, K=3, BIGMAX=0, KINDS=1, FAIL=1), j=8, alloc_in_harness=1, wit=['end'])
H('C29', 'thresholds', 'value_array.c', VAL, VAB + ', members of every kind owning memory, every allocation may fail', dict(S=0, K=1, BIGMAX=3, KINDS=1, FAIL=1), dict(S=0, K=1, BIGMAX=12, KINDS=1, FAIL=1), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])

# ---------------------------------------------------------------- dictionaries
DM = dict(CSTR=1, ORDLO=0, ORDHI=1, CMPLO=0, CMPHI=2, FAIL=0)
DB = ', with and without order, default / reversed / case-folding comparator'
DK = 'every history of %(K)d operations, every key of 0..%(LMAX)d arbitrary bytes' + DB
DF = '%(K)d operation(s) with every 2-byte key on a dictionary of %(FILL)d entries'
D = lambda **k: dict(dict(DM, S=0), **k)
H('C30', 'exact', 'dict.c', VAL, DK, D(K=2, LMAX=2), D(K=2, LMAX=4), j=8, alloc_in_harness=1, wit=['end'])
H('C30', 'history', 'dict.c', VAL, DK, D(K=3, LMAX=1, CMPHI=0), D(K=3, LMAX=2), j=8, alloc_in_harness=1, wit=['end'])
H('C30', 'tricky', 'dict.c', VAL, '%(S)d added, then %(K)d operations, 14 keys: empty, zeros, prefixes of one another, high bytes, inline/heap and varint length limits' + DB, D(S=1, K=1, POOL=1, LMAX=0), D(S=2, K=1, POOL=1, LMAX=0), j=8, alloc_in_harness=1, wit=['end'])
H('C30', 'filled', 'dict.c', VAL, DF, D(K=1, LFIX=2, LMAX=2, FILL=24, PATTERN=3, ORDLO=1), D(K=2, LFIX=2, LMAX=2, FILL=12, PATTERN=3, CMPHI=0), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
H('C31', 'history', 'dict.c', VAL, DK + ', walks stopped anywhere with any result, key buffers of every size', D(K=2, LMAX=1, ENUM=1), D(K=3, LMAX=1, ENUM=1, CMPHI=1), j=8, alloc_in_harness=1, wit=['end'])
H('C31', 'tricky', 'dict.c', VAL, '%(S)d added, then %(K)d operations, 14 tricky keys' + DB + ', walks stopped anywhere, key buffers of every size', D(S=1, K=1, POOL=1, LMAX=0, ENUM=1, CMPHI=0), D(S=2, K=1, POOL=1, LMAX=0, ENUM=1, CMPHI=0), j=8, alloc_in_harness=1, wit=['end'])
for pt in range(4):
    H('C31', 'filled-%d' % pt, 'dict.c', VAL, DF + ' added in pattern %(PATTERN)d, walks stopped anywhere, key buffers of every size', D(K=1, LFIX=2, LMAX=2, FILL=16, PATTERN=pt, ENUM=1, ORDLO=1, CMPHI=1), D(K=1, LFIX=2, LMAX=2, FILL=40, PATTERN=pt, ENUM=1, ORDLO=1, CMPHI=1), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
    H('C32', 'filled-%d' % pt, 'dict.c', VAL, DF + ' added in pattern %(PATTERN)d, comparisons of every lookup counted, the tree verified', D(K=1, LFIX=2, LMAX=2, FILL=40, PATTERN=pt, VERIFY=1, ORDHI=0, CMPLO=1, CMPHI=1), D(K=2, LFIX=2, LMAX=2, FILL=20, PATTERN=pt, VERIFY=1, ORDHI=0, CMPLO=1, CMPHI=1), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])
DT = 'one %s on every valid dictionary tree of height <= %%(H)d (symbolic shape and colours), every key, default and custom comparator'
for i, nm in enumerate(('insertion', 'removal')):
    H('C32', nm, 'dict_tree.c', [], DT % nm, dict(H=4, ORDER=0, CMPHI=1, OP=i), dict(H=5, ORDER=0, CMPHI=1, OP=i), j=8, alloc_in_harness=1, wit=['end'])
    H('C32', nm + '-order', 'dict_tree.c', [], DT % nm + ', order kept', dict(H=3, ORDER=1, CMPHI=1, OP=i), dict(H=4, ORDER=1, CMPHI=1, OP=i), j=8, alloc_in_harness=1, wit=['end'])
H('C31', 'removal-order', 'dict_tree.c', [], DT % 'removal' + ', insertion order links checked', dict(H=3, ORDER=1, CMPHI=0, OP=1), dict(H=4, ORDER=1, CMPHI=0, OP=1), j=8, alloc_in_harness=1, wit=['end'])
H('C32', 'removal-5', 'dict_tree.c', [], DT % 'removal', dict(H=5, ORDER=0, CMPHI=0, OP=1), dict(H=6, ORDER=0, CMPHI=0, OP=1), j=8, alloc_in_harness=1, wit=['end'])
for p in ('C30', 'C31', 'C32'): H(p, 'tall', 'dict_tall.c', [], TALL, dict(DEPTH=60, ORDER=int(p == 'C31')), j=4, alloc_in_harness=1, wit=['end', 'walk'])
H('C33', 'history', 'dict.c', VAL, '%(S)d added, then every history of %(K)d operations, keys inline and on the heap, values of every kind owning memory, every allocation may fail, cleaning and reuse', D(S=1, K=2, POOL=2, LMAX=0, FAIL=1, OWN=1, CMPHI=1, CSTR=0), D(S=1, K=3, POOL=2, LMAX=0, FAIL=1, OWN=1, CMPHI=1, CSTR=0), j=8, alloc_in_harness=1, wit=['end'])
H('C33', 'filled', 'dict.c', VAL, DF + ', values of every kind, every allocation may fail', D(K=1, LFIX=2, LMAX=2, FILL=20, PATTERN=3, FAIL=1, OWN=1, CMPHI=1), D(K=2, LFIX=2, LMAX=2, FILL=10, PATTERN=3, FAIL=1, OWN=1, CMPHI=1), j=8, alloc_in_harness=1, instr=5000000, wit=['end'])

DL = 'two keys of lengths around the powers of two up to %(TOP)d, equal up to one arbitrary byte at any of 6 positions, or prefixes of one another'
for p, m in (('C30', 0), ('C31', 0), ('C34', 1), ('C35', 2)):
    H(p, 'long', 'dict_long.c', VAL, DL, dict(PATHS=m, LO=1, HI=18, TOP=4096), dict(PATHS=m, LO=1, HI=25, TOP=65536), j=4, alloc_in_harness=1, instr=30000000, wit=['end'])

# ---------------------------------------------------------------- paths
for p, b in (('C34', 0), ('C35', 1)):
    P = lambda mode, n, roots, seps=0, fail=0: dict(MODE=mode, N=n, ROOTS=roots, SEPS=seps, BUILD=b, FAIL=fail)
    HI = ', on a hierarchy with nested arrays and dictionaries, empty containers, new and null values; %(ROOTS)d+1 starting values'
    H(p, 'arbitrary', 'path.c', VAL, 'every path of 0..%(N)d arbitrary bytes' + HI, P(0, 5, 4), P(0, 7, 4), j=8, alloc_in_harness=1, wit=['end'])
    H(p, 'tail', 'path.c', VAL, '7 prefixes followed by 0..%(N)d arbitrary bytes' + HI, P(1, 4, 0), P(1, 6, 0), j=8, alloc_in_harness=1, wit=['end'])
    H(p, 'digits', 'path.c', VAL, 'indexes of up to 65 digits around every power of ten and the 2^63 and 2^64 limits, with signs and leading zeros, last 1..%(N)d digits arbitrary' + HI, P(2, 1, 0), P(2, 2, 0), j=8, alloc_in_harness=1, wit=['end'])
    H(p, 'components', 'path.c', VAL, 'every path of 0..%(N)d components from 24 (keys, indexes, malformed), with any separators' + HI, P(3, 2, 4, 1), P(3, 3, 1, 0), j=8, alloc_in_harness=1, wit=['end'])
H('C35', 'fail', 'path.c', VAL, 'every path of 0..%(N)d components from 24, every allocation may fail', P(3, 2, 0, 0, 1), P(3, 3, 0, 0, 1), j=8, alloc_in_harness=1, wit=['end'])

# ---------------------------------------------------------------- memory helpers
MC = ['mem/memchunk.c']
MB = 'every history of %(K)d requests with every 64-bit block size and request size (granted up to %(MAXSIZE)s bytes), both initialisers, every allocation may fail, one arbitrary byte of every region written'
MH = 'every history of %(K)d requests, block sizes and request sizes 0..%(NHI)d or thresholds up to 1025, huge sizes, every allocation may fail, all bytes written'
for p in ('C36', 'C37'):
    H(p, 'symbolic', 'memchunk.c', MC, MB, dict(SYM=1, K=3, FAIL=1, MAXSIZE='0x80000000'), dict(SYM=1, K=5, FAIL=1, MAXSIZE='0x80000000'), engine='cbmc', unwind=12)
H('C36', 'small', 'memchunk.c', MC, MH, dict(SYM=0, K=3, BSHI=9, NHI=9, FAIL=0), dict(SYM=0, K=4, BSHI=10, NHI=12, FAIL=0), j=8, wit=['end'])
H('C36', 'wide', 'memchunk.c', MC, MH, dict(SYM=0, K=2, BSHI=21, NHI=40, FAIL=0), dict(SYM=0, K=3, BSHI=21, NHI=31, FAIL=0), j=8, wit=['end'])
H('C37', 'small', 'memchunk.c', MC, MH, dict(SYM=0, K=2, BSHI=9, NHI=9, FAIL=1), dict(SYM=0, K=4, BSHI=7, NHI=7, FAIL=1), j=8, wit=['end'])
H('C37', 'wide', 'memchunk.c', MC, MH, dict(SYM=0, K=2, BSHI=21, NHI=24, FAIL=1), dict(SYM=0, K=3, BSHI=21, NHI=31, FAIL=1), j=8, wit=['end'])
H('C38', 'arithmetic', 'malloca.c', [], 'every 64-bit (and int, unsigned, short) size and threshold in 19 expression forms, heap may refuse; alloca, malloc, free recorded', dict(MODE=0), j=4, wit=['end'])
H('C38', 'real', 'malloca.c', [], 'three live blocks of 21 x 21 sizes around the thresholds, heap may refuse, three release orders, all bytes written', dict(MODE=1), j=8, wit=['end'])

# ---------------------------------------------------------------- command line
CL = ['misc/cmdline.c']
ca = 'every table of %(OPTLO)d..%(OPTHI)d options (any short name, flags, long name up to %(NAME)d arbitrary bytes), %(TOKLO)d..%(TOKHI)d tokens of up to %(LEN)d and %(LEN2)d arbitrary bytes'
cr = 'rich tables (short, long, optional, required, compiler-like; names prefixing one another), every 0..%(TOKHI)d tokens from 38'
CA = lambda lo, hi, nm, tl, th, l1, l2, stop: dict(MODE=0, OPTLO=lo, OPTHI=hi, NAME=nm, TOKLO=tl, TOKHI=th, LEN=l1, LEN2=l2, STOP=stop)
H('C39', 'small', 'cmdline.c', CL, ca, CA(0, 2, 1, 0, 2, 3, 1, 0), CA(0, 2, 2, 0, 2, 4, 2, 0), j=8, wit=['end'])
H('C39', 'group', 'cmdline.c', CL, ca, CA(2, 2, 2, 1, 1, 5, 1, 0), CA(3, 3, 2, 1, 1, 5, 1, 0), j=8, wit=['end'])
H('C39', 'rich', 'cmdline.c', CL, cr, dict(MODE=1, TOKHI=2, STOP=0), dict(MODE=1, TOKHI=3, STOP=0), j=8, wit=['end'])
H('C40', 'small', 'cmdline.c', CL, ca + ', the callback stops anywhere with any result', CA(0, 2, 1, 0, 2, 3, 1, 3), CA(0, 2, 2, 0, 2, 4, 2, 3), j=8, wit=['end'])
H('C40', 'group', 'cmdline.c', CL, ca + ', the callback stops anywhere with any result', CA(2, 2, 2, 1, 1, 5, 1, 3), CA(3, 3, 2, 1, 1, 5, 1, 3), j=8, wit=['end'])
H('C40', 'rich', 'cmdline.c', CL, cr + ', the callback stops anywhere with any result', dict(MODE=1, TOKHI=2, STOP=3), dict(MODE=1, TOKHI=3, STOP=3), j=8, wit=['end'])
for p_, st_, t_ in (('C39', 0, ''), ('C40', 3, ', the callback stops anywhere with any result')):
    H(p_, 'pair', 'cmdline.c', CL, ca + t_, CA(1, 1, 1, 2, 2, 2, 3, st_), CA(1, 1, 2, 2, 2, 3, 4, st_), j=8, wit=['end'])
    H(p_, 'three', 'cmdline.c', CL, ca + t_, CA(0, 1, 1, 3, 3, 2, 1, st_), CA(1, 1, 2, 3, 3, 3, 2, st_), j=8, wit=['end'])
H('C40', 'long', 'cmdline.c', CL, 'option names and tokens of every length %(LENLO)d..%(LENHI)d, known and unknown, with and without arguments', dict(MODE=2, LENLO=1, LENHI=90, STOP=0), dict(MODE=2, LENLO=1, LENHI=120, STOP=2), j=8, wit=['end'])

# ---------------------------------------------------------------- macros
for i, k, nm, b in ((0, 0, 'integers', 'every value of every integer type, and mixes of types of one signedness'), (1, 0, 'floats', 'every float and double value except NaN, mixed with int'), (3, 0, 'members', 'arrays and members of nested structures, every element')) + tuple((2, k, 'compound-%d' % k, 'compound arguments and contexts over every 16-bit (and unsigned 32-bit) operand, part %(PART)d') for k in range(8)):
    H('C41', nm, 'macros.c', [], b, dict(MODE=i, PART=k), engine='cbmc', unwind=8, encodes=['misc/defs.h: MIN, MAX, MIN3, MAX3, CLAMP, ABS, SIZEOF_ARRAY, OFFSETOF, CONTAINEROF'])

# ---------------------------------------------------------------- memory stream
MS = ['win32/memstream.c']
ms = lambda ops, k, lo, hi, fail=0, res=0: dict(OPS='"%s"' % ops, K=k, SIZELO=lo, SIZE=hi, FAIL=fail, RES=res)
M = lambda p, nm, b, q, t=None, **kw: H(p, nm, 'memstream.c', MS, b, q, t, cflags=['-I' + os.path.join(HERE_, 'lib/win32')], alloc_in_harness=0, **kw)
MB = 'every history of %(K)d operations (s seek, r read, c copy, k clone, a AddRef, d Release, q QueryInterface, x refused ones, t stat) of %(OPS)s, data of %(SIZELO)d..%(SIZE)d arbitrary bytes, every 64-bit offset and count'
MBF = MB + ', every allocation may fail'
MBS = 'every history of %(K)d operations of %(OPS)s on data of every size up to %(MAXSIZE)s, every 64-bit offset and count, every position (memory as arrays of symbolic size)'
M('C42', 'history', MB, ms('srt', 2, 0, 3), ms('sr', 3, 0, 3), j=8, wit=['end'])
M('C42', 'reads', MB, ms('r', 3, 3, 6), ms('r', 4, 4, 8), j=8, wit=['end'])
M('C42', 'clones', MB, ms('srk', 2, 1, 2), ms('srk', 3, 1, 2), j=8, wit=['end'])
M('C43', 'copy', MB, ms('sc', 2, 0, 3), ms('sc', 3, 0, 2), j=8, wit=['end'])
M('C43', 'clone', MBF, ms('srck', 2, 1, 2, 1), ms('srck', 3, 1, 2, 1), j=8, wit=['end'])
M('C44', 'history', MBF, ms('akdqxt', 3, 0, 1, 1, 1), ms('akdqxt', 4, 0, 1, 1, 1), j=8, wit=['end', 'refused'])
M('C44', 'released', MBF, ms('akdq', 3, 1, 1, 1), ms('akdqs', 4, 1, 1, 1), j=8, wit=['end'])
M('C44', 'resources', 'creation from a resource of 1..%(SIZE)d bytes: every failing step, every last error, refused memory, then %(K)d operation of %(OPS)s', ms('rxtdc', 1, 0, 4, 1, 1), ms('rxtdc', 2, 0, 4, 1, 1), j=8, wit=['end', 'refused'])
for p, nm, ops, n, q, t in (('C42', 'any-size', 'sr', 1, 2, 3), ('C43', 'any-size-copy', 'sc', 1, 2, 3), ('C43', 'any-size-clone', 'kr', 2, 2, 3)):
    M(p, nm, MBS, *(dict(SYM=1, OPS='"%s"' % ops, K=k, CLONES=n, MAXSIZE='0x7fffffff', FAIL=0, RES=0) for k in (q, t)), engine='cbmc', unwind=12, native_opt='-O1', replay_timeout=60)
TB = 'threads 1 and 2: up to %(OPSN)d AddRef or QueryInterface each, then their Releases; thread 3 (of %(THREADS)d): up to %(LAST)d; with or without a further reference; any operations of later threads run between any two accesses to shared memory of earlier ones, nested'
M('C45', 'two-threads', TB, dict(THREADS=2, OPSN=2, LAST=0, OPS='"a"', K=0, SIZELO=0, SIZE=1, FAIL=0, RES=0), dict(THREADS=2, OPSN=3, LAST=0, OPS='"a"', K=0, SIZELO=0, SIZE=1, FAIL=0, RES=0), j=4, wit=['end'], tsan=1)
M('C45', 'three-threads', TB, dict(THREADS=3, OPSN=1, LAST=1, OPS='"a"', K=0, SIZELO=0, SIZE=1, FAIL=0, RES=0), dict(THREADS=3, OPSN=2, LAST=0, OPS='"a"', K=0, SIZELO=0, SIZE=1, FAIL=0, RES=0), j=8, wit=['end'], tsan=1)
