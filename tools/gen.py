#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/propdefs.py (claims = the ids in registry.py)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from propdefs import P, NA, HOOK
from registry import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for i in sorted(P):
        t, s, over, q, why, files, mech, note = P[i]
        assert len(t) <= 80, (i, len(t))
        a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
        if i in HOOK:
            a['hook_needed'] = HOOK[i]
        f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a)) + '\n')
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout.split('\n')
         if l.split(' ', 1)[-1].startswith('hook:')]
m = dict(version=1, setup_cmd='python3-vt run.py setup',
         hooks=dict(guard='PX4_AVOIDANCE_CONTRACTS', enable='-DPX4_AVOIDANCE_CONTRACTS (plus the contract headers of /verif/include), set by irvc/driver.py', source_commits=hooks),
         checks=[dict(property=i, quick_cmd='python3-vt run.py check %s --tier quick' % i, thorough_cmd='python3-vt run.py check %s --tier thorough' % i,
                  technique='contract-based deductive verification: weakest-precondition style obligations generated from the LLVM IR of the real code, discharged by z3/cvc5',
                      level='other' if P[i][7].startswith('bounded') else 'proof', level_note=P[i][7]) for i in sorted(PROPS)],
         not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())])
assert set(PROPS) | set(NA) == set(P), set(P) ^ (set(PROPS) | set(NA))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
