#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
L = 'src/lib/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[L + f for f in files],
                               state=[dict(name=n, meaning=m, where=L + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=L + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


exec(open(os.path.join(os.path.dirname(__file__), 'props_data.py')).read())

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
