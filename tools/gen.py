#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when harness/<id>.cpp exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA, NOTE
with open(root + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        for x in p['anchors']['files']: assert os.path.exists('/repo/' + x), x
        for x in p['anchors']['mechanism']: assert os.path.exists('/repo/' + x['where']), x
        f.write(json.dumps(p) + '\n')
checks, na = [], []
default = ('Every path of the harness through the real code (clang -O1 LLVM IR, regenerated from /repo each run) is executed symbolically '
           'and each assertion, memory access and abnormal end is decided by z3 for all values within the bounds of the harness (see DESIGN.md and the evidence file). '
           'Floating point is modelled as exact reals with axioms for transcendental functions, or bit-exactly where the harness says mode=fp; rounding is therefore outside in real mode. '
           'Counterexamples count only when the natively compiled code reproduces them. Trusted: the executor and its library models (cross-checked by native runs), clang, z3.')
for p in P:
    i = p['id']
    if i in NA or not os.path.exists(f'{root}/harness/{i}.cpp'):
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built yet.')))
    else:
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'python3-vt check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique='symbolic execution of LLVM IR with z3, counterexamples replayed natively',
                           level='model_checking', level_note=default + (' ' + NOTE[i] if i in NOTE else '')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: harnesses include the headers directly. Known findings: known_findings.txt.')
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
