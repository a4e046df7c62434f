"""Builds the engine, the IR of /repo + harness, and the native replayers."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(V, 'build')
CORES = os.cpu_count() or 8
ENGINE = os.path.join(BUILD, 'engine', 'release', 'lsx')
TC = '1.85.0-x86_64-unknown-linux-gnu'
Z3S = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so', '/usr/lib/x86_64-linux-gnu/libz3.so']
Z3 = next((z for z in Z3S if os.path.exists(z)), 'libz3.so')


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO_') and k not in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN')}
    if 'CARGO_HOME' in os.environ:
        e['CARGO_HOME'] = os.environ['CARGO_HOME']
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e


def sh(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stderr[-4000:])
        print('ERROR build failed: ' + ' '.join(cmd))
        sys.exit(2)
    return p


def sha(f):
    return hashlib.sha256(open(f, 'rb').read()).hexdigest()


def tree_hash():
    h = hashlib.sha256()
    for base, pats in ((REPO, ('src/**/*.rs', 'wasmpack/src/**/*.rs', 'Cargo.toml')), (V, ('harness/**/*.rs', 'harness/Cargo.*', 'stubs/**/*.rs', 'stubs/**/*.toml', 'stubs/*/build.rs', 'lib/build.py'))):
        for p in pats:
            for f in sorted(glob.glob(os.path.join(base, p), recursive=True)):
                h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def llvm_dis():
    c = glob.glob('/root/.rustup/toolchains/*/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis')
    c.sort(key=lambda p: ('stable' not in p, p))
    if not c:
        c = [p for p in ('/usr/bin/llvm-dis-19', '/usr/bin/llvm-dis-18') if os.path.exists(p)]
    return c[0]


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    sh(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'engine')], os.path.join(V, 'engine'), env(RUSTUP_TOOLCHAIN=TC))


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        src = tree_hash()
        w = os.path.join(BUILD, 't-' + src[:16])
        ll = os.path.join(w, 'harness.ll')
        bins = {p: os.path.join(w, 'native', d, 'replay') for p, d in (('dev', 'debug'), ('rel', 'rel'))}
        if os.path.exists(os.path.join(w, 'done')):
            return w, ll, bins, src
        old = sorted(glob.glob(os.path.join(BUILD, 't-*')), key=os.path.getmtime)
        for o in old[:-3]:
            subprocess.run(['rm', '-rf', o])
        os.makedirs(w, exist_ok=True)
        h = os.path.join(V, 'harness')
        flags = '--cfg lsx --cap-lints=allow -C save-temps -C no-vectorize-loops -C no-vectorize-slp'

        def attempt(feats):
            fs = ['--no-default-features', '--features', ','.join(feats)]
            ps = []
            for cmd, e in (
                (['cargo', 'rustc', '--lib', '--crate-type', 'cdylib', '--release', '--offline', '--locked', '--target-dir', w + '/sym'] + fs, env(RUSTUP_TOOLCHAIN=TC, RUSTFLAGS=flags)),
                (['cargo', 'build', '--bin', 'replay', '--offline', '--locked', '--target-dir', w + '/native'] + fs, env(RUSTUP_TOOLCHAIN=TC, RUSTFLAGS='--cap-lints=allow')),
                (['cargo', 'build', '--bin', 'replay', '--profile', 'rel', '--offline', '--locked', '--target-dir', w + '/native2'] + fs, env(RUSTUP_TOOLCHAIN=TC, RUSTFLAGS='--cap-lints=allow')),
            ):
                ps.append((cmd, subprocess.Popen(cmd, cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bad = ''
            for cmd, p in ps:
                o = p.communicate()[0]
                if p.returncode != 0:
                    bad = o[-4000:] + '\nERROR build failed: ' + ' '.join(cmd)
            return bad
        # what does not compile (any more) with the stubs is left out, and only the properties which need it have no answer
        for feats in (['async', 'http', 'wasm'], ['async', 'wasm'], ['async', 'http'], ['wasm'], ['async'], []):
            subprocess.run(['rm', '-rf', w + '/sym'])
            bad = attempt(feats)
            if not bad:
                break
            print(bad if feats == [] or len(feats) == 3 else 'ERROR also without some parts')
        if bad:
            sys.exit(2)
        os.makedirs(w + '/native/rel', exist_ok=True)
        os.replace(w + '/native2/rel/replay', w + '/native/rel/replay')
        bc = [f for f in glob.glob(w + '/sym/release/deps/harness*.rcgu.bc') if 'no-opt' not in f and '.lto.' not in f]
        if len(bc) != 1:
            print('ERROR bitcode:', bc)
            sys.exit(2)
        sh([llvm_dis(), bc[0], '-o', ll], w, env())
        subprocess.run(['rm', '-rf', w + '/sym', w + '/native2'])
        open(os.path.join(w, 'done'), 'w').write(src)
        return w, ll, bins, src


def demangle(s):
    if not s.startswith('_ZN'):
        return s
    i, out = 3, []
    while i < len(s) and s[i].isdigit():
        m = re.match(r'\d+', s[i:])
        n = int(m.group())
        i += len(m.group())
        out.append(s[i:i + n])
        i += n
    if out and re.fullmatch(r'h[0-9a-f]{16}', out[-1]):
        out.pop()
    t = '::'.join(out)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$C$', ','), ('$RF$', '&'), ('$u5b$', '['), ('$u5d$', ']'), ('$u7b$', '{'), ('$u7d$', '}'), ('..', '::')):
        t = t.replace(a, b)
    return t


class Finding:
    def __init__(self, text, pats):
        self.text, self.pats = text, pats

    def matches(self, t, v):
        return all(re.search(p, x or '') for p, x in ((self.pats.get('task', ''), t.name()), (self.pats.get('label', ''), v['label']), (self.pats.get('kind', ''), v['kind']), (self.pats.get('bytes', ''), v['bytes'])))


def known_findings(prop):
    """known_findings.jsonl: {"property", "status": "known", "text", "match": {task,label,kind,bytes: regex}} or {"status": "fixed", ...}."""
    f = os.path.join(V, 'known_findings.jsonl')
    r = []
    if os.path.exists(f):
        for l in open(f):
            if l.strip():
                j = json.loads(l)
                if j['property'] == prop and j['status'] == 'known':
                    r.append(Finding(j['text'], j['match']))
    return r


def second_solver(ds):
    n = agree = 0
    dis = []
    for d in ds:
        for f in sorted(glob.glob(d['out'] + '/*.smt2'))[:20]:
            exp = open(f).readline().split()[-1]
            try:
                p = subprocess.run(['cvc5', '--tlimit=20000', f], capture_output=True, text=True, timeout=40)
                got = p.stdout.strip().split('\n')[-1]
            except subprocess.TimeoutExpired:
                got = 'timeout'
            n += 1
            if got == exp:
                agree += 1
            elif got in ('sat', 'unsat') and exp in ('sat', 'unsat'):
                dis.append('%s: z3 %s cvc5 %s' % (os.path.basename(f), exp, got))
    return dict(solver='cvc5', queries=n, agree=agree, disagree=dis)


if __name__ == '__main__':
    w, ll, bins, src = build()
    print('built', ll)
