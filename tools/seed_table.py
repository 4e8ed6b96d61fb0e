"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
Those known to be missed by the check of their property: MISSED."""
import glob, json, os, re
MISSED = set()
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'].rstrip('.'),
        'no' if i in MISSED else 'yes'))
t = '| id | check | needs | caught |\n|---|---|---|---|\n' + '\n'.join(rows)
p = '/verif/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(\n<!-- /seeds -->)',
           lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, 'w').write(s)
