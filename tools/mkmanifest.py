"""Writes MANIFEST.json from properties.jsonl and the harness modules that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'symtk', 'props', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='symbolic execution of the current Python sources, obligations decided by SMT (z3) over all values within the bounds, counterexamples replayed',
                           level='model_checking',
                           level_note='every real value of the inputs within the sizes, ranks and branch bounds listed in the evidence file; numpy/scipy/h5py replaced by contracts; exact real arithmetic'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy"', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks load the sources of /repo/src directly. KNOWN_FINDINGS.txt lists repaired defects.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
