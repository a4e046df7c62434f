#!/usr/bin/env python3
"""Rewrites lib/reach.json from the evidence of quick runs on the unchanged tree (run by hand, after new tasks were added)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
old = json.load(open(V + '/lib/reach.json'))
new = {}
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    e = json.load(open(f))
    for t in e['coverage']['tasks']:
        if t.get('complete'):
            new[t['name']] = sorted(t['reached'])
for k in old:
    if k not in new:
        print('kept', k)
        new[k] = old[k]
    elif new[k] != sorted(old[k]):
        print('changed', k, old[k], new[k])
json.dump(dict(sorted(new.items())), open(V + '/lib/reach.json', 'w'), indent=0)
print(len(old), len(new))
