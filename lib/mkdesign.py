"""Refreshes the generated tables of DESIGN.md (per-property notes from props.py, planted bugs from seeded/*/meta.json + caught.json)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
def put(s, name, text):
    b, e = f'<!-- {name} -->', f'<!-- end {name} -->'
    blk = b + '\n' + text + '\n' + e
    if b in s:
        return s[:s.index(b)] + blk + s[s.index(e) + len(e):]
    return s.replace(f'@@{name}@@', blk)
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
t = []
for p in sorted(PROPS):
    c = PROPS[p]
    t.append(f'### {p} {titles[p]}\n*Level* {c["level"]}; *units* {", ".join(c["units"]) or "none"}' + (f'; *theorems* {", ".join("`"+x+"`" for x in c["theorems"])}' if c['theorems'] else '') + f'.\n{c["note"]}\n')
s = put(s, 'PROPS', '\n'.join(t))
res = {}
f = V + '/lib/seeded_results.json'
if os.path.exists(f):
    res = json.load(open(f))
rows = ['| bug | property | needs | detected by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f'| {d} | {m["property"]} | {m["needs"]} | {res.get(d, "?")} |')
s = put(s, 'SEEDED', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
