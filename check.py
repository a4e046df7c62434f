#!/usr/bin/env python3
"""Decides one property by symbolic execution of the code in /repo.

usage: check.py <property id>      (VERIF_TIER = quick | thorough)

1. compiles the harness crate together with /repo's current source to LLVM IR,
2. runs the symbolic executor (engine/) on each harness of the property,
3. replays every counterexample, and a sample of the explored paths, natively against the same source,
4. writes evidence/<id>.json.
"""
import collections, concurrent.futures, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import build as B
import props


class Error(Exception):
    pass


def replay_native(bins, prof, t, hexb, timeout):
    try:
        p = subprocess.run(['/bin/sh', '-c', 'ulimit -v 3000000; exec "$@"', 'sh', bins[prof], t.fn, ','.join(map(str, t.params)), hexb], capture_output=True, text=True, timeout=timeout,
                           cwd='/', env={'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'})
    except subprocess.TimeoutExpired:
        return {'hang': True}
    if p.returncode != 0 or not p.stdout.strip().startswith('{'):
        return {'crash': p.returncode, 'stderr': p.stderr[-400:]}
    return json.loads(p.stdout)


def confirmed(kind, label, r):
    """Does the native run show the violation?"""
    if kind == 'check':
        return label in r.get('failed', [])
    if kind == 'steps':
        # (a loop which allocates runs out of memory)
        return bool(r.get('hang') or 'crash' in r)
    return bool(r.get('panic') or 'crash' in r or r.get('hang'))


def run_task(t, ll, out, tier):
    os.makedirs(out, exist_ok=True)
    cmd = [B.ENGINE, '--ll', ll, '--fn', 'h_' + t.fn, '--params', ','.join(map(str, t.params)), '--out', out, '--jobs', str(t.jobs),
           '--time', str(t.time), '--max-steps', str(t.max_steps), '--samples', str(t.samples), '--z3', B.Z3, '--rlimit', str(t.rlimit),
           '--stop-first', '1']
    if tier == 'thorough':
        cmd += ['--dump', out + ':997']
    t0 = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True)
    r = collections.Counter()
    d = dict(fn=t.fn, params=list(t.params), wall=round(time.time() - t0, 2), violations=[], samples=[], reach={}, errors=collections.Counter(),
             functions=collections.Counter(), labels=collections.Counter(), exits=[], out=out)
    n = 0
    for f in os.listdir(out):
        if not f.startswith('r-'):
            continue
        j = json.load(open(os.path.join(out, f)))
        n += 1
        for k in ('paths', 'dead', 'steps', 'forks', 'checks', 'checks_folded', 'inconclusive', 'states_left', 'queries', 'cache_hits', 'sat', 'unsat',
                  'unknown', 'solver_us', 'finite', 'finite_audited'):
            r[k] += j[k]
        r['incomplete'] += bool(j['incomplete'])
        for k in ('max_query_us', 'max_vars', 'max_steps'):
            r[k] = max(r[k], j[k])
        d['violations'] += j['violations']
        d['samples'] += j['samples']
        d['errors'].update(j['errors'])
        d['functions'].update(j['functions'])
        d['labels'].update(j['check_labels'])
        for k, x in j['reach'].items():
            d['reach'][k] = d['reach'].get(k, 0) + x[0]
        d['solver'] = j['solver']
        if j['exit'] != 'ok':
            d['exits'].append(j['exit'])
    d.update(r)
    if p.returncode != 0 or n == 0:
        d['exits'].append('engine exit %s: %s' % (p.returncode, p.stderr[-300:]))
    return d


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    known = B.known_findings(prop)
    work, ll, bins, src = B.build()
    tasks = P.tasks(tier)
    only = os.environ.get('LSX_ONLY')
    if only:
        tasks = [t for t in tasks if re.search(only, t.name())]
    res = {}
    out = os.path.join(work, 'out-%s-%d' % (prop, os.getpid()))
    subprocess.run(['rm', '-rf', out])
    small = [t for t in tasks if t.jobs == 1]
    big = [t for t in tasks if t.jobs > 1]
    budget = P.budget(tier)
    skipped = []

    def go(t):
        left = budget - (time.time() - t0)
        if left < 3:
            skipped.append(t.name())
            return t, None
        t.time = min(t.time, left)
        return t, run_task(t, ll, os.path.join(out, t.name()), tier)

    done = []
    with concurrent.futures.ThreadPoolExecutor(B.CORES) as ex:
        done += list(ex.map(go, small))
    for t in big:
        done.append(go(t))
    # ---- judge
    viol, knownhit, problems, notes = [], [], [], []
    validated = mismatched = 0
    jobs = []
    for t, d in done:
        if d is None:
            continue
        if d['exits']:
            problems.append('%s: %s' % (t.name(), d['exits'][:2]))
        for e, n in d['errors'].items():
            problems.append('%s: not encodable: %s (%d paths)' % (t.name(), e, n))
        if d['incomplete']:
            notes.append('%s: stopped with %d states unexplored' % (t.name(), d['states_left']))
        if d['inconclusive']:
            notes.append('%s: %d solver queries undecided' % (t.name(), d['inconclusive']))
        for i, s in enumerate(d['samples'][:t.samples * 4]):
            jobs.append((t, 'sample', s))
        seen = collections.Counter()
        for v in d['violations']:
            k = (v['kind'], v['label'])
            seen[k] += 1
            if seen[k] <= 4:
                jobs.append((t, 'viol', v))

    def rep(j):
        t, what, x = j
        if what == 'sample':
            return j, [replay_native(bins, 'dev', t, x['bytes'], 60)]
        to = 20 if x['kind'] == 'steps' else 60
        return j, [replay_native(bins, 'dev', t, x['bytes'], to), replay_native(bins, 'rel', t, x['bytes'], to)]
    with concurrent.futures.ThreadPoolExecutor(B.CORES) as ex:
        reps = list(ex.map(rep, jobs))
    conf = collections.Counter()
    unconf = {}
    for (t, what, x), rs in reps:
        if what == 'sample':
            r = rs[0]
            if r.get('obs') == x['obs'] and not r.get('panic') and not r.get('failed') and not r.get('dead') and not r.get('short'):
                validated += 1
            else:
                mismatched += 1
                problems.append('%s: symbolic path %s and native run differ: %s vs %s' % (t.name(), x['bytes'][:400], x['obs'][:20], str(r)[:400]))
            continue
        key = (t.name(), x['kind'], x['label'])
        ok = [p for p, r in zip(('dev', 'release'), rs) if confirmed(x['kind'], x['label'], r)]
        if ok:
            conf[key] += 1
            k = [f for f in known if f.matches(t, x)]
            item = dict(task=t.name(), kind=x['kind'], label=x['label'], bytes=x['bytes'], stack=x['stack'], reproduced=ok, native=rs, fn=t.fn,
                        params=list(t.params))
            (knownhit if k else viol).append((k, item) if k else item)
        else:
            unconf.setdefault(key, (x, rs))
    for key, (x, rs) in unconf.items():
        if conf[key]:
            continue
        if x['kind'] == 'steps':
            notes.append('%s: a path was cut at the step limit' % key[0])
        else:
            problems.append('%s: counterexample does not reproduce natively: %s %s bytes=%s native=%s' % (key[0], key[1], key[2], x['bytes'], str(rs)[:600]))
    if not viol:
        expected = props.reach_labels()
        for t, d in done:
            if d is None or d['incomplete'] and not t.reach_always:
                continue
            for l in expected.get(t.name(), []):
                if not d['reach'].get(l):
                    problems.append('%s: never reached "%s"' % (t.name(), l))
    # ---- second solver on sampled queries
    second = B.second_solver([d for _, d in done if d]) if tier == 'thorough' else None
    if second and second['disagree']:
        problems.append('cvc5 disagrees with z3 on %s' % second['disagree'][:2])
    # ---- evidence
    tot = collections.Counter()
    funcs = collections.Counter()
    for _, d in done:
        if d:
            for k in ('paths', 'dead', 'steps', 'forks', 'checks', 'checks_folded', 'queries', 'cache_hits', 'sat', 'unsat', 'unknown', 'solver_us',
                      'inconclusive', 'states_left', 'finite', 'finite_audited'):
                tot[k] += d[k]
            funcs.update(d['functions'])
    repo_f = sorted(B.demangle(f) for f in funcs if 'dnssec_prover' in f)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=P.assumptions + props.COMMON_ASSUMPTIONS,
        coverage=dict(
            states=tot['paths'] + tot['dead'], transitions=tot['steps'], traces_validated_against_impl=validated,
            samples=[dict(task=t.name(), input=s['bytes'], observed=s['obs'][:16]) for t, d in done if d for s in d['samples'][:1]][:6],
            explanation='states = symbolic paths (each stands for every input that takes it), transitions = LLVM instructions executed symbolically, '
                        'traces validated = sampled paths whose observations matched a native run of the same source',
            exhaustive=not notes and not skipped and not problems,
            bounds=P.bounds, not_covered=P.outside, tasks=[
                dict(name=t.name(), paths=d['paths'], cut_by_assume=d['dead'], steps=d['steps'], longest_path=d['max_steps'], symbolic_bytes=d['max_vars'],
                     complete=not d['incomplete'], reached=d['reach'], assertions=dict(d['labels']), wall_s=d['wall'])
                for t, d in done if d],
            skipped=skipped, notes=notes, problems=problems,
            solver=next((d['solver'] for _, d in done if d and 'solver' in d), None),
            queries_discharged=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], undecided=tot['unknown'], solver_seconds=round(tot['solver_us'] / 1e6, 2),
            query_cache_hits=tot['cache_hits'], decided_by_finite_domain=tot['finite'], finite_domain_audited_by_solver=tot['finite_audited'],
            assertions_checked=tot['checks'], assertions_folded_to_true=tot['checks_folded'],
            functions_encoded=len(funcs), repo_functions_encoded=repo_f, ir_sha256=B.sha(ll), source_sha256=src, second_solver=second,
        ))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    subprocess.run(['rm', '-rf', out])
    for d in notes:
        print('note:', d)
    for s in skipped:
        print('note: skipped', s)
    print('%s %s: %d paths, %d instructions, %d queries (%.1f s), %d assertions, %d traces validated, %.1f s' % (
        prop, tier, tot['paths'], tot['steps'], tot['queries'] + tot['finite'], tot['solver_us'] / 1e6, tot['checks'], validated, time.time() - t0))
    shown = set()
    for k, item in knownhit:
        if k[0].text not in shown:
            shown.add(k[0].text)
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0].text))
    if viol:
        rd = os.path.join(V, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in viol:
            k = (v['kind'], v['label'])
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(rd, '%s-%d.json' % (prop, len(seen)))
            v['how_to_replay'] = 'python3 /verif/replay.py ' + path
            json.dump(v, open(path, 'w'), indent=1)
            print('violated: %s: %s %s (reproduced natively: %s)' % (v['task'], v['kind'], v['label'], ', '.join(v['reproduced'])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        for p in problems[:20]:
            print('ERROR', p)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
