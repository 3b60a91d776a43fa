"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for m in glob.glob(R + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], m.split('/')[-2], d['needs']))
rows.sort()
t = '| property | bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows)
s = open(R + '/DESIGN.md').read()
s = re.sub(r'\| property \| bug \| needs \|\n\|---\|---\|---\|\n(\|.*\n)*', lambda _: t, s)
open(R + '/DESIGN.md', 'w').write(s)
print(len(rows))
