"""Writes MANIFEST.json from the drivers present in harness/ (run after adding a driver)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        m = importlib.import_module(i.lower())
        checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python harness/check.py {i} quick',
                       'thorough_cmd': f'/opt/venv/bin/python harness/check.py {i} thorough',
                       'technique': getattr(m, 'TECHNIQUE', 'Quint model: behaviours generated by quint run, replayed into the code and compared state by state'),
                       'level': m.LEVEL, 'level_note': getattr(m, 'NOTE', 'Model-based testing against an explicit Quint specification: exact up to 1e-9 on every generated behaviour; sampling of the input space. Trusts Quint 0.32, numpy for comparison.')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'quint --version', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Language: Quint. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
