#!/usr/bin/env python3
"""Mutation of /repo's source, to look for changes which the checks miss (a tool for building the checks, run by hand; no check uses it).

mutate.py gen OUT                 candidates, as JSON lines
mutate.py filter IN OUT [jobs]    those which build and pass the tests
mutate.py run IN LOG DIR [k/n]    the checks against each
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FILES = ['src/validation.rs', 'src/ser.rs', 'src/rr.rs', 'src/query.rs', 'src/base32.rs', 'src/http.rs', 'wasmpack/src/lib.rs', 'src/crypto/mod.rs', 'src/crypto/hash.rs']


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, executable='/bin/bash', **k)


def lines(f):
    """Lines which are not tests."""
    s = open('/repo/' + f).read().split('\n')
    skip = depth = 0
    fn = ''
    armed = False
    for i, l in enumerate(s):
        t = l.strip()
        if armed or skip:
            depth += l.count('{') - l.count('}')
            if armed and '{' in l:
                armed, skip = False, 1
            if armed and t.endswith(';'):
                armed = False
            if skip and depth <= 0:
                skip = 0
            continue
        if re.match(r'#\[cfg\((all\()?(test|fuzzing)', t) or t == '#[test]' or t.startswith('#[cfg(fuzzing)]'):
            armed, depth = True, 0
            if '{' in l:
                armed, skip = False, 1
                depth = l.count('{') - l.count('}')
            continue
        m = re.search(r'\bfn (\w+)', l)
        if m:
            fn = m[1]
        if t.startswith('//') or t.startswith('#[') or t.startswith('use ') or not t or t.startswith('debug_assert') or t.startswith('///'):
            continue
        yield i, l, fn


SUB = [
    (r'(?<![<=>!-])<(?![<=\'A-Z])(?= )', '<='), (r'(?<= )<= ', '< '), (r'(?<= )>(?= )', '>='), (r'(?<= )>= ', '> '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ' + 0'), (r' - 1\b', ' - 0'), (r' \+ 1\b', ' + 2'), (r'\bcmp::min\(', 'cmp::max('), (r'\bcmp::max\(', 'cmp::min('),
    (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r' \| ', ' & '), (r' & ', ' | '), (r' << ', ' >> '), (r' >> ', ' << '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' / ', ' * '), (r' \* ', ' / '), (r' % ', ' / '),
    (r'!(?=[a-z])(?!\()', ''), (r'Ordering::Less', 'Ordering::Greater'), (r'Ordering::Greater', 'Ordering::Less'),
    (r'\.is_ok\(\)', '.is_err()'), (r'\.is_empty\(\)', '.len() == 1'), (r'\?;$', ';'), (r'to_be_bytes', 'to_le_bytes'), (r'from_be_bytes', 'from_le_bytes'),
    (r'\.next\(\)', '.last()'), (r'\.rposition\(', '.position('), (r'pop\(\)', 'remove(0)'), (r'pop_front', 'pop_back'), (r'push_back', 'push_front'),
    (r'u16', 'u8'), (r'as u16', 'as u8 as u16'), (r'as usize', 'as u8 as usize'), (r'as u32', 'as u16 as u32'),
]


def gen(out):
    n = 0
    with open(out, 'w') as o:
        for f in FILES:
            for i, l, fn in lines(f):
                cand = []
                for a, b in SUB:
                    for m in re.finditer(a, l):
                        if l[:m.start()].count('"') % 2 == 0:
                            cand.append(l[:m.start()] + b + l[m.end():])
                for m in re.finditer(r'(?<![\w.])(0x[0-9a-f]+|0b[01_]+|\d+)(?![\w.])', l):
                    if l[:m.start()].count('"') % 2:
                        continue
                    v = int(m[1].replace('_', ''), 0)
                    for w in {v + 1, v - 1, v ^ 0x80} if v < 4096 else {v + 1, v - 1}:
                        if w >= 0 and not (w == v ^ 0x80 and v < 32):
                            cand.append(l[:m.start()] + str(w) + l[m.end():])
                t = l.strip()
                if re.match(r'if .*\{ *(return [^}]*|continue;|break;)? *\}$', t):
                    cand.append(l[:len(l) - len(t)] + re.sub(r'^if .*? \{', 'if false {', t))
                elif re.match(r'if .*\{$', t) and ' let ' not in t:
                    cand.append(l[:len(l) - len(t)] + 'if true {')
                    cand.append(l[:len(l) - len(t)] + 'if false {')
                    if ' && ' in t:
                        c = t[3:-2]
                        a, b = c.split(' && ', 1)
                        cand += [l[:len(l) - len(t)] + 'if ' + a + ' {', l[:len(l) - len(t)] + 'if ' + b + ' {']
                elif re.match(r'[\w.*\[\]]+(\.\w+\(.*\))?.*;$', t) and not t.startswith(('let ', 'return', 'use ', 'const', 'type', 'pub', 'continue', 'break', 'static', 'mod')) and l.count('(') == l.count(')'):
                    cand.append(l[:len(l) - len(t)] + '// ' + t)
                elif t.startswith('.filter(') and l.count('(') == l.count(')') and not t.endswith(';'):
                    cand.append(l[:len(l) - len(t)])
                elif t.startswith('&& ') or t.endswith(' &&'):
                    cand.append(l[:len(l) - len(t)] + (t.endswith(' &&') and re.sub(r'^(.*?)&& *$', lambda m: m[1] and 'true &&', t) or 'X'))
                for c in dict.fromkeys(cand):
                    if c != l and not c.endswith('X'):
                        n += 1
                        o.write(json.dumps(dict(id=n, file=f, line=i, fn=fn, old=l, new=c)) + '\n')
    print(n)


def put(root, m, back=False):
    p = root + '/' + m['file']
    s = open(p).read().split('\n')
    assert s[m['line']] == (m['new'] if back else m['old']), m
    s[m['line']] = m['old'] if back else m['new']
    open(p, 'w').write('\n'.join(s))


def filt(inp, out, jobs):
    ms = [json.loads(l) for l in open(inp)]

    def worker(k):
        w = '/tmp/mut%d' % k
        shutil.rmtree(w, ignore_errors=True)
        sh('cp -a /repo %s && git -C %s checkout -q -- .' % (w, w))
        res = []
        for m in ms[k::jobs]:
            put(w, m)
            if m['file'].startswith('wasmpack') or m['file'] == 'src/http.rs':
                t = sh('. /opt/vp/env.sh; timeout 100 cargo check --offline --features build_server,tokio --bins' if m['file'] == 'src/http.rs' else 'true', cwd=w)
                ok = t.returncode == 0
            else:
                t = sh('. /opt/vp/env.sh; ulimit -v 8000000; timeout 60 cargo test --offline --lib && timeout 100 cargo check --offline --features build_server,tokio --bins', cwd=w)
                ok = t.returncode == 0
            put(w, m, True)
            if ok:
                with open(out, 'a') as o:
                    o.write(json.dumps(m) + '\n')
        shutil.rmtree(w, ignore_errors=True)
    open(out, 'w').close()
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(worker, range(jobs)))


def of(m):
    f, fn, l = m['file'], m['fn'], m['line']
    if f.endswith('validation.rs'):
        d = {'bytes_to_rsa_pk': 'C17', 'verify_rrsig': 'C09 C01 C04 C02', 'verify_dnskeys': 'C02 C04 C01 C06', 'resolve_time': 'C05', 'nsec_ord': 'C07', 'nsec_ord_extra': 'C07 C06',
             'is_in_zone': 'C03 C01 C18', 'resolve_name': 'C18', 'root_hints': 'C26'}
        if fn in d:
            return d[fn].split()
        s = open('/repo/' + f).read().split('\n')
        a = next(i for i, x in enumerate(s) if 'let nsec3_search' in x)
        b = next(i for i, x in enumerate(s) if 'rrs_needing_non_existence_proofs.sort' in x)
        return 'C08 C07 C05 C06'.split() if l >= a else 'C07 C08 C05 C06 C01'.split() if l >= b else 'C01 C04 C05 C03 C06 C07'.split()
    if f.endswith('ser.rs'):
        return 'C12 C11 C14 C15 C20 C10 C09'.split()
    if f.endswith('rr.rs'):
        if 'json' in fn or fn == 'ty_to_rr_name':
            return ['C25']
        return {'key_tag': ['C16'], 'labels': ['C13'], 'trailing_n_labels': ['C13'], 'try_from': ['C13'], 'cmp': ['C24'], 'contains_type': ['C15']}.get(fn, 'C14 C11 C15 C24 C25 C13'.split())
    if f.endswith('query.rs'):
        if l < 100:
            return ['C23']
        return 'C19 C21 C22 C20 C28 C29'.split() if 'async' not in fn and 'stream' not in m['old'] else 'C28 C29'.split()
    return {'src/base32.rs': 'C08', 'src/http.rs': 'C30', 'wasmpack/src/lib.rs': 'C27', 'src/crypto/mod.rs': 'C17', 'src/crypto/hash.rs': 'C02 C08 C17'}[f].split()


def run(inp, log, W, part='0/1'):
    k, n = map(int, part.split('/'))
    ms = [json.loads(l) for l in open(inp)][k::n]
    done = set(json.loads(l)['id'] for l in open(log)) if os.path.exists(log) else set()
    env = dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1')
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('cp -a /repo %s/repo; cp -a %s %s/verif; rm -rf %s/verif/seeded' % (W, V, W, W))
    sh("cd %s/verif && sed -i 's#/repo#%s/repo#g' check.py replay.py lib/build.py harness/Cargo.toml stubs/wasmpack/Cargo.toml stubs/wasmpack/build.rs stubs/httpbin/Cargo.toml && git -C %s/repo checkout -q -- ." % (W, W, W))
    for m in ms:
        if m['id'] in done:
            continue
        put(W + '/repo', m)
        t = time.time()
        by, odd = None, []
        for p in of(m):
            r = subprocess.run(['timeout', '900', 'python3', 'check.py', p], cwd=W + '/verif', env=env, capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                by = p
                break
            if r.returncode != 0:
                odd.append((p, r.returncode, (r.stdout + r.stderr)[-300:]))
        put(W + '/repo', m, True)
        sh('ls -td %s/verif/build/t-* | tail -n +3 | xargs rm -rf' % W)
        with open(log, 'a') as o:
            o.write(json.dumps(dict(id=m['id'], file=m['file'], line=m['line'] + 1, fn=m['fn'], old=m['old'].strip(), new=m['new'].strip(), by=by, odd=odd, s=int(time.time() - t))) + '\n')
    shutil.rmtree(W, ignore_errors=True)


a = sys.argv[1:]
if a[0] == 'gen':
    gen(a[1])
elif a[0] == 'filter':
    filt(a[1], a[2], int(a[3]) if len(a) > 3 else 4)
else:
    run(*a[1:])
