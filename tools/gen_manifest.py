#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
import specs
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
have = set(specs.props())
checks = []; na = []
for p in props:
    i = p['id']
    if i in have and i not in specs.NOT_CLAIMED:
        engs = sorted({h.get('engine', 'symx') for h in specs.harnesses(i, 'quick')})
        tech = ' and '.join({'symx': 'symbolic execution of the compiled LLVM IR with Z3 (symx)', 'cbmc': 'bounded model checking of the C source with CBMC', 'custom': 'CBMC with loop abstraction'}[e] for e in engs)
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=tech, level='other',
            level_note='Solver-decided for every value within the bounds listed per harness in the evidence file; nothing is claimed outside them. Trusts clang/LLVM or goto-cc, the engine and the solver; reported violations are replayed on the natively compiled code.' ))
    else: na.append(dict(property=i, reason=specs.NOT_CLAIMED.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='make -s -C symx', checks=checks, not_applicable=na, notes='No hooks are added to /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
