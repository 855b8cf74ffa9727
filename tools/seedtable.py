#!/usr/bin/env python3
"""seedtable.py: the table of planted bugs of DESIGN.md, from seeded/*/meta.json and the results recorded in tools/caught.txt (ID: checks)"""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
f = D + '/tools/caught.txt'
if os.path.exists(f):
    for l in open(f):
        if ':' in l: k, v = l.split(':', 1); res[k.strip()] = v.strip()
out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(D + '/seeded')):
    m = json.load(open(D + '/seeded/%s/meta.json' % i))
    out.append("| %s | %s | %s | %s |" % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, 'not run yet')))
p = D + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
