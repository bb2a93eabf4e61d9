#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lsym import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif hook'], capture_output=True, text=True).stdout.split()
NA = props.NOT_APPLICABLE
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': '--cfg big_o_verif', 'enable': 'RUSTFLAGS="--cfg big_o_verif" (lsym/build.py)', 'source_commits': hook},
    'checks': [],
    'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check built yet')} for i in ids if i not in props.CHECKS],
    'notes': 'lsym/ is a symbolic executor for the LLVM IR of the crate (regenerated from /repo on every run) over Z3; harness/ states the properties; see DESIGN.md. Exit code 2 means the check could not decide.',
}
for i in ids:
    c = props.CHECKS.get(i)
    if c is None:
        continue
    m['checks'].append({
        'property': i,
        'quick_cmd': '/opt/veriftools/pyvenv/bin/python3 check.py %s quick' % i,
        'thorough_cmd': '/opt/veriftools/pyvenv/bin/python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': c.technique,
        'level': 'model_checking',
        'level_note': c.level_note,
    })
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
