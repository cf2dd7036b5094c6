"""python3 tools/plant.py BUG.py [check ...]: tries a planted bug (variables ID, PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO = python source) against /repo and stores it in seeded/<ID>."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src, checks = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
b = {}
exec(open(src).read(), b)
d = f"{V}/seeded/{b['ID']}"
os.makedirs(d, exist_ok=True)
sh = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
assert not sh('git', '-C', '/repo', 'status', '--short').stdout
open(d + '/demo.py', 'w').write(b['DEMO'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
                                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']},
          open(d + '/meta.json', 'w'), indent=1)
demo = lambda: sh('bash', d + '/demo.sh', cwd='/repo', timeout=300)
r = demo()
print('demo unchanged rc', r.returncode, r.stdout[-500:], r.stderr[-800:] if r.returncode else '')
ok = r.returncode == 0
try:
    for f, old, new, *mark in b['EDITS']:      # optional: text after which the first occurrence is meant
        s = open('/repo/' + f).read()
        k = s.index(mark[0]) if mark else 0
        assert (old in s[k:]) if mark else s.count(old) == 1, (f, s.count(old), old)
        open('/repo/' + f, 'w').write(s[:k] + s[k:].replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(sh('git', '-C', '/repo', 'diff').stdout)
    r = demo()
    print('demo patched rc', r.returncode, (r.stdout + r.stderr)[-300:])
    ok = ok and r.returncode != 0
    if '-n' not in sys.argv:
        sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
        base = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/plant.json'))
        miss = set(base['stable']) - set(o.get('passed', []))
        print('tests missing:', sorted(miss)[:6], len(miss))
        ok = ok and not miss
        print('KEEP' if ok else 'REJECT')
    for c in checks or [b['PROP']]:
        r = sh(V + '/run.sh', c, 'quick', env=dict(os.environ, VERIF_SEED='1'))
        print(c, 'rc', r.returncode, r.stdout.strip().splitlines()[-3:])
finally:
    sh('git', '-C', '/repo', 'checkout', '--', '.')
