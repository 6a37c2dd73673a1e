#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]     decide one property
   check.py --replay <file>                        run a recorded failing case
   check.py --rebaseline <property>                (developer) list what is not proved"""
import sys, os, re, json, time, tempfile, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('TIV_REPO', '/repo')

TRUSTED = [
    'the VC generator in /verif/vc (LLVM IR semantics, memory model, weakest-precondition rules)',
    'clang 18 -O0 front end and the opt passes listed in vc/lib.py (inlining, mem2reg, simplification, full unrolling of constant loops): the verified text is the IR they produce from /repo on this run',
    'z3 4.8/5 (python bindings in python3-vt)',
    'libm functions (sqrt, log, pow, trigonometric, ...) touch no memory and always return; malloc/calloc/operator new return null/throw or a fresh block of the requested size',
]
ASSUME = [
    'caller contract: size >= 0 and <= 2^31-2^21, each input array holds size values, each output array max(0, size-start) values, arrays do not overlap unless stated',
    'every option value is a finite number of magnitude at most 10^6 (fractions included)',
    'floating-point values are unconstrained (NaN and infinities included) for the memory, arithmetic, output-count and resource obligations',
]

ASSUME_VALUE = [
    ASSUME[0],
    'period options are whole numbers within the range the definition states (all others are reals of magnitude at most 10^6); runs that write at least one value',
    'floating-point arithmetic is exact real arithmetic: rounding, overflow, NaN and infinity are outside; decimal constants of the code and of the definition stand for the simplest rational that rounds to them',
    'price bars satisfy low <= high; sums of squares satisfy n * sum x^2 >= (sum x)^2 (used for variances); sqrt, exp, log, trigonometric functions are uninterpreted (equal arguments, equal results)',
    'the definitions in vc/specs.py are the published ones; recursions and running sums of a definition are ghost functions of the bar number with their defining equations as axioms',
    'functions listed under market_data_only: also positive prices, low <= open, close <= high, positive volume (without that the definition and the code differ only where a denominator is zero)',
    'an indicator that calls another one relies on that function\'s own contract in this property (proved separately)',
    'for the functions listed under bounded_not_proved: concrete bars only, compared within what rounding can do',
]


ASSUME_MORE = {
    'P06': ['what is proved is one run call over the whole series on a new stream (and that allocation succeeds): a series fed in several chunks is covered by the object invariant of P05 as far as counts go and by bounded search as far as values go',
            'stream = batch follows because both are proved equal to the same definition'],
    'P10': ['the ranges are derived from the definition (vc/lemma.py) by induction over the bars; nothing is claimed at a bar where the definition divides by zero',
            'bars: positive prices, low <= open, close <= high, positive volume; option multipliers positive'],
    'P07': [],
}


def assumed(prop):
    return ASSUME_VALUE + ASSUME_MORE[prop] if prop in ASSUME_MORE else ASSUME


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    rebase = '--rebaseline' in a
    a = [x for x in a if x != '--rebaseline']
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    prop = a[0]
    only = a[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import lib as libm, jobs
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='tiv.')
    L = libm.Lib(REPO, work)
    try:
        return check(L, prop, tier, seed, t0, rebase, only)
    finally:
        L.cleanup()


def pool_run(ctx, js, nproc=8, limit=780):
    """run the jobs in forked workers; a worker that dies or hangs costs only its job"""
    import multiprocessing as mp, jobs
    q = list(range(len(js)))[::-1]
    live, out = {}, [None] * len(js)
    t0 = time.time()
    while q or live:
        while q and len(live) < nproc:
            k = q.pop()
            rd, wr = mp.Pipe(False)
            p = mp.Process(target=_child, args=(wr, ctx, js, k))
            p.start()
            wr.close()
            live[k] = (p, rd, time.time())
        time.sleep(0.005)
        for k, (p, rd, ts) in list(live.items()):
            done = False
            if rd.poll():
                try:
                    out[k] = rd.recv()
                except EOFError:
                    pass
                done = True
            elif not p.is_alive():
                if rd.poll():
                    continue
                done = True
            elif time.time() - ts > 300 or time.time() - t0 > limit:
                p.kill()
                done = True
                out[k] = dict(label=js[k]['label'], name=js[k]['name'], status='undecided', obligations=0, discharged=0, fails=[], searched=0, kinds={},
                              inv=0, cases=1, note='time limit', time=time.time() - ts)
            if done:
                p.join()
                rd.close()
                del live[k]
                if out[k] is None:
                    out[k] = dict(label=js[k]['label'], name=js[k]['name'], status='undecided', obligations=0, discharged=0, fails=[], searched=0, kinds={},
                                  inv=0, cases=1, note='worker died', time=time.time() - ts)
    return out


def _child(wr, ctx, js, k):
    import jobs
    sys.setrecursionlimit(20000)
    wr.send(jobs.run_job(ctx, js[k]))
    wr.close()
    os._exit(0)


def check(L, prop, tier, seed, t0, rebase, only):
    import jobs, solve
    base = json.load(open(os.path.join(HERE, 'baseline.json')))
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    bounded = {} if rebase else base.get(prop, {})
    L.prepare()
    errs = L.build_all()
    if errs:
        print('does not compile:', errs, file=sys.stderr)
        return 2
    ctx = jobs.Ctx(L, tier, seed, bounded)
    ctx.nat.driver()
    js = jobs.PROPS[prop](L)
    if only:
        js = [j for j in js if j['label'] in only]
    out = pool_run(ctx, js)
    if rebase:
        nb = {r['label']: r['note'][:160] for r in out if r['status'] != 'proved'}
        if only:
            old = base.get(prop, {})
            for r in out:
                old.pop(r['label'], None)
            nb = {**old, **nb}
        base[prop] = dict(sorted(nb.items()))
        json.dump(base, open(os.path.join(HERE, 'baseline.json'), 'w'), indent=1)
        for r in out:
            if r['status'] != 'proved' or 'case' in r or r.get('error'):
                print(r['label'], r['status'], '%.0fs' % r['time'], r['note'][:200], r.get('case', {}).get('why', ''))
        print(len(out), 'jobs', len(out) - len(nb), 'proved', time.time() - t0, 's', 'slowest', sorted((round(r['time']), r['label']) for r in out)[-5:])
        return 0
    nviol = 0
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    for r in out:
        v = None
        if 'case' in r:
            kf = [f for f in known['findings'] if f['property'] == prop and f['function'] == r['label'] and f['why'] in r['case']['why']]
            if kf:
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, r['label'], kf[0]['what']))
                continue
            v = ''
            body = dict(property=prop, function=r['label'], case=r['case'], failed_obligations=r['fails'])
        elif r['status'] == 'failed' and r['label'] not in bounded:
            v = ' no-failing-input-found'
            body = dict(property=prop, function=r['label'], failed_obligations=r['fails'], searched=r['searched'],
                        note='the obligations above were discharged on the unchanged tree and are not any more')
        if v is not None:
            p = os.path.join(HERE, 'replay', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', r['label'])))
            json.dump(body, open(p, 'w'), indent=1)
            print('%s: %s' % (r['label'], r['case']['why'] if 'case' in r else r['note']))
            print('VIOLATION property=%s replay=%s%s' % (prop, p, v))
            nviol += 1
    evidence(prop, tier, seed, out, bounded, nviol, time.time() - t0)
    n = len(out)
    pr = sum(1 for r in out if r['status'] == 'proved')
    print('%s: %d functions, %d proved, %d obligations discharged of %d, %d bounded/undecided, %.0f s' % (
        prop, n, pr, sum(r['discharged'] for r in out), sum(r['obligations'] for r in out), n - pr, time.time() - t0))
    return 1 if nviol else 0


def evidence(prop, tier, seed, out, bounded, nviol, wall):
    kinds = {}
    for r in out:
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    proved = [r for r in out if r['status'] == 'proved']
    rest = [r for r in out if r['status'] != 'proved']
    man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    level = man.get(prop, {}).get('level', 'proof')
    cov = dict(
        obligations=sum(r['obligations'] for r in out), discharged=sum(r['discharged'] for r in out),
        checker_cmd='python3-vt /verif/check.py %s' % prop, trusted_base=TRUSTED,
        functions_under_contract=len(out), functions_proved=len(proved),
        obligations_by_kind=kinds, loop_invariants=sum(r['inv'] for r in out), back_end='z3',
        solver_and_generator_seconds=round(sum(r['time'] for r in out), 1),
        bounded_not_proved={r['label']: dict(why=r['note'][:200], cases_run=r['searched']) for r in rest},
        evaluations=sum(r['searched'] for r in out),
        **(dict(compared_with_definition=sum(r.get('compared', 0) for r in out), never_compared=sorted(r['label'] for r in out if r['searched'] and not r.get('compared'))) if prop in ('P06', 'P07') else {}),
        **(dict(market_data_only=sorted(r['label'] for r in proved if r.get('market'))) if prop in ('P06', 'P07', 'P10') else {}),
        not_vacuous='for every proved function the solver is asked whether its assumptions exclude the return; a function for which they do is reported undecided, not proved',
        samples=[dict(function=r['label'], obligations=r['obligations'], invariants=r['inv'], case_splits=r['cases']) for r in sorted(out, key=lambda r: -r['obligations'])[:4]])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumed(prop), wall_s=round(wall, 2), violations=nviol),
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


def replay(path):
    import lib as libm, native, search
    d = json.load(open(path))
    if 'case' not in d:
        print(json.dumps(d, indent=1))
        return 1
    L = libm.Lib(REPO, tempfile.mkdtemp(prefix='tiv.'))
    try:
        L.prepare()
        if d['case']['oracle'] == 'registry':
            import registry
            bad = registry.table_case(L)[0] if d['case']['kind'] == 'table' else registry.concrete(L)[0]
            print(bad['why'] if bad else 'the case passes')
            return 1 if bad else 0
        if d['case']['oracle'] == 'rings':
            import rings
            bad = rings.concrete(L, d['case']['N'], d['case']['op'])[0]
            print(bad['why'] if bad else 'the case passes')
            return 1 if bad else 0
        r = native.Runner(native.Native(L), d['case']['name'])
        r.up()
        import random
        import oracle
        why = (oracle.ORACLES.get(d['case']['oracle']) or getattr(search, d['case']['oracle']))(r, dict(d['case']), random.Random(1))
        print(why or 'the case passes')
        return 1 if why else 0
    finally:
        L.cleanup()


if __name__ == '__main__':
    sys.exit(main())
