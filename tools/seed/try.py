#!/usr/bin/env python3
"""Runs the checks against the planted bugs, in copies of /verif and /repo: try.py [-d DIR] [id...]; the check of each bug's property unless id:Cxx,Cyy is given.
With -d, every DIR/*.diff is tried instead (for edits that change no behaviour, say)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = os.environ.get('TRY_DIR', '/tmp/try')
env = dict(os.environ, VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'), VERIF_SEED='1')
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(['bash', '-c', 'cp -a /repo %s/repo; cp -a %s %s/verif; rm -rf %s/verif/seeded' % (W, V, W, W)])
sh("cd %s/verif && sed -i 's#/repo#%s/repo#g' check.py replay.py lib/build.py harness/Cargo.toml stubs/wasmpack/Cargo.toml stubs/wasmpack/build.rs stubs/httpbin/Cargo.toml && git -C %s/repo checkout -q -- ." % (W, W, W))
for i in ids:
    i, _, ps = i.partition(':')
    d = i if os.path.sep in i else V + '/seeded/' + i + '/patch.diff'
    props = ps.split(',') if ps else [json.load(open(os.path.dirname(d) + '/meta.json'))['property']]
    r = subprocess.run(['git', '-C', W + '/repo', 'apply', d], capture_output=True, text=True)
    if r.returncode:
        print(i, 'does not apply', r.stderr[-300:])
        continue
    for p in props:
        t = time.time()
        r = subprocess.run(['python3', 'check.py', p], cwd=W + '/verif', env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        c = r.returncode == 1 and any('property=' + p in l for l in v)
        print('%-20s %s rc %d %4ds %s %s' % (i[-40:], p, r.returncode, time.time() - t, 'caught' if c else 'MISSED <<<<' if r.returncode == 0 else 'BROKEN <<<<', [l for l in r.stdout.split('\n') if 'violat' in l.lower()][:2] if c else ''), flush=True)
        if r.returncode not in (0, 1) or r.returncode == 1 and not c:
            print(r.stdout[-600:], r.stderr[-600:])
    subprocess.run(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'])
shutil.rmtree(W, ignore_errors=True)
