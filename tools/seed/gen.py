#!/usr/bin/env python3
"""Writes seeded/<id>/ for the bugs in bugs.py, after trying each in a scratch copy of /repo: it has to build, pass the tests and be shown by its demonstration."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
from bugs import BUGS
import bugs2, bugs3, bugs4, bugs5, bugs6
import bugs as _b
BUGS = _b.BUGS
W = '/tmp/seedwork'
BASE = 'cb88fcd'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    only = sys.argv[1:]
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo %s' % W)
    for b in BUGS:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- . && git clean -fdq src', cwd=W)
        f = os.path.join(W, b['file'])
        s = open(f).read()
        bad = None
        for o, n in b['edits']:
            if s.count(o) != 1:
                bad = 'text occurs %d times: %s' % (s.count(o), o[:60])
                break
            s = s.replace(o, n)
        if bad:
            print(b['id'], bad)
            continue
        open(f, 'w').write(s)
        d = sh('git diff', cwd=W).stdout
        orig = sh('git show %s:%s' % (BASE, b['file']), cwd=W).stdout.split('\n')
        removed = [l[1:] for l in d.split('\n') if l.startswith('-') and not l.startswith('---')]
        if not any(l in orig for l in removed):
            print(b['id'], 'changes none of the original lines')
            continue
        out = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(os.path.join(H, 'demo'), out)
        kind = b.get('kind')
        if kind:
            shutil.copytree(os.path.join(H, 'demo_wasm' if kind == 'wasm' else 'demo_net'), out, dirs_exist_ok=True)
        if kind == 'http':
            open(out + '/server', 'w').close()
        use = ''
        if kind in ('net', 'http'):
            use = 'mod net;\n#[allow(unused_imports)]\nuse dnssec_prover::{query::*, rr::*};\n#[allow(unused_imports)]\nuse net::*;\n'
        if kind == 'wasm':
            use = '#[path = "@REPO@/wasmpack/src/lib.rs"]\nmod web;\n#[allow(unused_imports)]\nuse dnssec_prover::rr::*;\n'
        m = '//! Shows what the change breaks.\nmod common;\nuse common::*;\n' + use + '\nfn main() {' + b['main'] + '    println!("ok");\n}\n'
        open(out + '/src/main.rs', 'w').write(m)
        open(out + '/patch.diff', 'w').write(d)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % out, cwd=W)
        t = sh('. /opt/vp/env.sh; cargo test --offline --lib 2>&1 | tail -40; cargo check --offline --features build_server,tokio --bins 2>&1 | tail -3', cwd=W, executable='/bin/bash')
        sh('git checkout -q -- .', cwd=W)
        r0 = sh('bash %s/demo.sh' % out, cwd=W)
        ok = r0.returncode == 0 and r1.returncode not in (0, 2)
        passed = 'test result: ok' in t.stdout
        print('%-20s %s demo %d/%d tests %s %s' % (b['id'], b['prop'], r0.returncode, r1.returncode, 'pass' if passed else 'FAIL', '' if ok and passed else '<<<<< DROP'), flush=True)
        if not (ok and passed):
            print((r0.stdout + r0.stderr)[-500:] if r0.returncode else '', (r1.stdout + r1.stderr)[-500:] if r1.returncode in (0, 2) else '', t.stdout[-600:] if not passed else '')
            shutil.rmtree(out)
    shutil.rmtree(W, ignore_errors=True)


main()
