"""Writes MANIFEST.json from the check modules present (python3 tools/manifest.py)."""
import json, os, re, ast
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
NA = {}
TECH = json.load(open(os.path.join(root, 'tools', 'technique.json')))
for p in props:
    i = p['id']
    f = os.path.join(root, 'pbt', 'checks', i.lower() + '.py')
    if os.path.isfile(f):
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
                           evidence_file=f'evidence/{i}.json', technique=t, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./run.sh --selftest', checks=checks, not_applicable=na,
         notes='No hooks: the checks drive the package through its public API and compare files and return values '
               'with independent references. Every check runs generated cases (Hypothesis, seeded by VERIF_SEED).')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
