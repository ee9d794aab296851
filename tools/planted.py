"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
s = open(V + '/DESIGN.md').read(); i = s.index('## Planted bugs'); j = s.index('\n', i) + 1
k = s.find('\n## ', j); k = len(s) if k < 0 else k
open(V + '/DESIGN.md', 'w').write(s[:j] + '\n'.join(rows) + '\n' + s[k:])
