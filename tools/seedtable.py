#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
S = '/verif/seeded'
rows = []
for i in sorted(os.listdir(S)):
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    rows.append('| `%s` | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
p = '/verif/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n| planted bug | caught by (quick) | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
