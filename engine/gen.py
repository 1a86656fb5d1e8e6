"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(catalog.CAT)
with open(V + '/properties.jsonl', 'w') as f:
    for i in ids:
        c = catalog.CAT[i]
        assert len(c['title']) <= 80, i
        f.write(json.dumps(c) + '\n')
checks = []
na = []
for i in ids:
    if i not in props.PROPS:
        na.append(dict(property=i, reason=catalog.NA.get(i, 'no check has been built yet')))
        continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py %s --tier quick' % i, thorough_cmd='python3-vt engine/check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique='symbolic execution of the compiled LLVM IR, obligations decided by SMT (z3, cvc5) after exact normalisation', level='other',
        level_note='Holds for every value within the bounds: %s. Trusts the IR interpreter and solvers in /verif/engine; %s.%s' % (P['bounds'], '; '.join(props.ASSUME + P['assume']), ' Outside: ' + P['outside'] + '.' if P['outside'] else '')))
json.dump(dict(version=1, setup_cmd='bash engine/setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the harness crate in ws/ compiles /repo/src with stand-ins for its external crates.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
