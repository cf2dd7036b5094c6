"""Writes MANIFEST.json from the checks that exist (run: python3 tools/manifest.py)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Bounded: exhaustive within the constants of the enumerating specification and sampled '
        'beyond (seeded generators). Trusts TLC, the projection in lib/, and the transcription of '
        'the documented semantics into the specification; nothing is assumed about how the code '
        'achieves it, only the public API is observed.')
TECH = 'TLA+ specification checked with TLC; '
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob(os.path.join(V, 'checks', i + '_*.py')):
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i} quick',
                       'thorough_cmd': f'./run.sh {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': TECH + T.get(i, 'recorded runs of the code validated against it, '
                                                 'behaviours enumerated from it replayed into the code'),
                       'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: every check observes the public API.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
