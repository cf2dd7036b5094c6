"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = '| bug | caught by | what it breaks |\n|---|---|---|\n'
rows = ''
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows += f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} |\n"
s = open(V + '/DESIGN.md').read()
i = s.index(head)
j = s.find('\n\n', i + len(head))
open(V + '/DESIGN.md', 'w').write(s[:i] + head + rows + (s[j + 1:] if j >= 0 else ''))
