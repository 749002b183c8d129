#!/usr/bin/env python3
"""writes engine/names.json: the member and function names the checks may refer to, as they are on the analysed base tree"""
import json
import os
import sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, V + '/engine')
sys.setrecursionlimit(100000)
import prog


def inventory(p):
    fl = {}
    for n, r in p.records.items():
        fl[n] = sorted(f['n'] for f in r['fields'] if f['n'])
    fn = sorted({f['n'] for f in p.fns.values() if f['n'].startswith('nla3d::')})
    return dict(fields={k: v for k, v in sorted(fl.items()) if v and k.startswith('nla3d::')}, fns=fn)


if __name__ == '__main__':
    json.dump(inventory(prog.load()), open(V + '/engine/names.json', 'w'), indent=0)
