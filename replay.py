#!/usr/bin/env python3
"""Replays a counterexample file (replays/*.json) natively against /repo's current source."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build as B
v = json.load(open(sys.argv[1]))
w, ll, bins, src = B.build()
for p in ('dev', 'rel'):
    try:
        r = subprocess.run([bins[p], v['fn'], ','.join(map(str, v['params'])), v['bytes']], capture_output=True, text=True, timeout=60)
        print(p, r.returncode, r.stdout.strip(), r.stderr[-300:])
    except subprocess.TimeoutExpired:
        print(p, 'did not finish in 60 s')
