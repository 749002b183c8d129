"""writes DESIGN.md from design_body.md, design_props.py, properties.jsonl, known-findings.json and catches.json"""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from design_props import D
from manifest_data import TECH, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    if i not in TECH:
        out.append('### %s %s\n\nNot applicable: %s\n' % (i, p['title'], NA.get(i, 'check not built')))
        continue
    a, o, b, r = D[i]
    out.append('### %s %s\n\n* Technique: %s.\n* Analysed: %s\n* Oracle: %s\n* Bounds: %s\n* Why tests cannot settle it: %s\n' % (i, p['title'], TECH[i][0], a, o, b, r))
fx = ['* **%s** `%s` %s' % (e['property'], e['commit'], e['what']) for e in json.load(open(V + '/known-findings.json')) if e['status'] == 'fixed']
more = open(T + '/design_more.md').read() if os.path.exists(T + '/design_more.md') else ''
s = open(T + '/design_body.md').read().replace('@@PROPS@@', '\n'.join(out).rstrip()).replace('@@FIXES@@', '\n'.join(fx)).replace('@@MORE@@', more.rstrip())
open(V + '/DESIGN.md', 'w').write(s.rstrip() + '\n')
