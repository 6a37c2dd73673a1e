"""Bounded oracles for the value properties (P04, P06, P07, P10): the
definitions of specs.py evaluated on concrete bars.  The tolerance of every
element is widened by how much the defined value itself moves when the inputs
move by rounding-sized amounts, so ill-conditioned points decide nothing."""
import random, math
import seq, specs
from seq import In, Undefined
from native import Crash, doubles
from search import run_batch

TOL = 1e-6


def integral(opts, kinds, kw):
    out = []
    for k, o in enumerate(opts):
        if kinds[k] == 'i':
            if o != int(o):
                return None
            o = int(o)
            if o < 1 or o > 5000:
                return None
            rg = kw.get('ranges', [])
            lo, hi = rg[k] if k < len(rg) else (1, None)
            if o < lo or hi is not None and o > hi:
                return None
        out.append(o)
    if kw.get('even') and out[0] % 2:
        return None
    return out


def evaluate(name, opts, ins, noise=None):
    """defined outputs: list of (start, values) or None where the definition does not apply"""
    f, kinds, kw = specs.SPECS[name]
    o = integral(opts, kinds, kw)
    if o is None:
        return None
    n = len(ins[0])
    keep = len(seq.NODES)
    if noise is not None:
        rng = random.Random(noise)
        seq.NOISE = lambda: rng.uniform(-1, 1)
    try:
        xs = [In(k, v) for k, v in enumerate(ins)]
        outs = f(xs, *o)
        res = []
        for s in outs:
            res.append((s.start, [float(s.at(i)) for i in range(s.start, n)]))
    except (Undefined, ZeroDivisionError, ValueError, OverflowError, IndexError):
        return None
    finally:
        del seq.NODES[keep:]
        seq.NOISE = None
    return res


def shaken(ins, seed, eps=1e-12):
    """every value moved by a rounding-sized amount, equal values alike (ties stay ties)"""
    f = {}
    rng = random.Random(seed)
    for s in ins:
        for x in s:
            if x not in f:
                f[x] = x * (1 + eps * rng.choice([-1, 1]))
    return [[f[x] for x in s] for s in ins]


def defined(c, more=2):
    """values and tolerances"""
    name, opts, ins = c['name'], c['options'], c['inputs']
    if not ins or not ins[0]:
        return None
    a = evaluate(name, opts, ins)
    if a is None:
        return None
    flat = all(len(set(s)) <= 1 for s in ins)
    b = [] if flat else [evaluate(name, opts, shaken(ins, k)) for k in range(more)] + [evaluate(name, opts, ins, k) for k in range(more + 2)]
    if any(x is None for x in b):
        return None
    tol = specs.SPECS[name][2].get('tol', TOL)
    m = max([abs(x) for s in ins for x in s])
    noise = {'sd': 1e-6, 'var': 1e-11 * max(m, 1)}.get(specs.SPECS[name][2].get('cond'), 1e-11) * max(m, 1)
    out = []
    for k, (st, v) in enumerate(a):
        sc = max([abs(x) for x in v if math.isfinite(x)], default=0.0)
        t = []
        for j, x in enumerate(v):
            d = 0.0
            for y in b:
                y = y[k][1][j]
                if not math.isfinite(x) or not math.isfinite(y):
                    d = math.inf
                else:
                    d = max(d, abs(x - y))
            if not math.isfinite(x) or d == math.inf:
                t.append(math.inf)
            else:
                t.append(tol * max(abs(x), sc * 1e-2, 1e-9) + 200 * d + noise)
        out.append((st, v, t))
    return out


def check(c, d, what):
    """result of a run against the definition"""
    if d['rc'] != 0 or d.get('exc'):
        return None
    # a difference has to survive a finer look at what rounding alone can do here
    return check1(c, d, what, 2) and check1(c, d, what, 30)


COMPARED = [0]         # executions compared with a definition


def check1(c, d, what, more):
    df = defined(c, more)
    if df is None:
        return None
    COMPARED[0] += 1
    n = len(c['inputs'][0])
    for k, (st, v, t) in enumerate(df):
        got = doubles(d['outs'][k])
        if d['start'] != st:
            return 'output %d of the %s starts at bar %d, its definition at bar %d' % (k, what, d['start'], st)
        if len(got) != len(v):
            return '%s output %d has %d elements, its definition %d' % (what, k, len(got), len(v))
        for j, (x, y) in enumerate(zip(got, v)):
            if t[j] == math.inf:
                continue
            if not (abs(x - y) <= t[j]):
                return '%s output %d at bar %d is %r, its definition gives %r' % (what, k, st + j, x, y)
    return None


def spec_batch(r, c, rng=None):
    try:
        d = run_batch(r, c)
    except Crash:
        return None
    return check(c, d, 'reference' if c['kind'] == 'ref' else 'batch')


def stream_spec(r, c, rng=None):
    """the stream against the batch function, within the conditioning of the definition"""
    try:
        a = r.stream(c['options'], c['inputs'], c['chunks'])
        b = r.batch(c['options'], c['inputs'])
    except Crash:
        return None
    if a['rc'] != 0 or b['rc'] != 0 or a['exc'] or b['exc']:
        return None
    return stream1(c, a, b, 2) and stream1(c, a, b, 30)


def stream1(c, a, b, more):
    df = defined(c, more)
    if df is None:
        return None
    for k, (st, v, t) in enumerate(df):
        x, y = doubles(a['outs'][k]), doubles(b['outs'][k])
        if len(x) != len(y):
            return 'output %d: the stream gives %d elements, the batch function %d' % (k, len(x), len(y))
        if len(y) != len(v):
            return None
        for j in range(len(x)):
            if t[j] == math.inf or (x[j] != x[j] and y[j] != y[j]):
                continue
            if not (abs(x[j] - y[j]) <= t[j]):
                return 'output %d element %d: the stream gives %r, the batch function %r' % (k, j, x[j], y[j])
    return None


def ranges(r, c, rng=None):
    """documented ranges and orders"""
    from ranges import R
    cs = R.get(c['name'])
    if not cs or not c['inputs'] or not c['inputs'][0]:
        return None
    f, kinds, kw = specs.SPECS[c['name']]
    if integral(c['options'], kinds, kw) is None:
        return None
    try:
        d = r.stream(c['options'], c['inputs'], c['chunks']) if c['kind'] == 'stream' else run_batch(r, c)
    except Crash:
        return None
    if d['rc'] != 0 or d.get('exc'):
        return None
    outs = [doubles(o) for o in d['outs']]
    why = broken(c, cs, outs, d['start'], None)
    if why is None:
        return None
    # only where rounding alone cannot be the reason
    df = defined(c, 30)
    if df is None or any(len(v) != len(o) for (st, v, t), o in zip(df, outs)):
        return None
    return broken(c, cs, outs, d['start'], [t for st, v, t in df])


def broken(c, cs, outs, start, tols):
    ins, o = c['inputs'], c['options']
    m = max(abs(x) for s in ins for x in s)

    def slack(k, j):
        return tols[k][j] if tols is not None else 1e-9 * max(m, 100.0)
    for cn in cs:
        k = cn[1]
        for j, x in enumerate(outs[k]):
            e = slack(k, j)
            if e == math.inf:
                continue
            i = start + j
            if cn[0] == 'in':
                if x != x or cn[2] is not None and x < cn[2] - e or cn[3] is not None and x > cn[3] + e:
                    return 'output %d at bar %d is %r, outside [%s, %s]' % (k, i, x, cn[2], cn[3])
            elif cn[0] == 'le':
                y = outs[cn[2]][j]
                if not x <= y + e + slack(cn[2], j):
                    return 'output %d at bar %d is %r, above output %d which is %r' % (k, i, x, cn[2], y)
            else:
                n = cn[3](o) if cn[3] else i + 1
                ks = cn[2] if isinstance(cn[2], list) else [cn[2]]
                w = [ins[q][t] for q in ks for t in range(max(0, i - n + 1), i + 1)]
                if cn[0] == 'win' and not min(w) - e <= x <= max(w) + e:
                    return 'output %d at bar %d is %r, outside the range [%r, %r] of its window' % (k, i, x, min(w), max(w))
                if cn[0] == 'one' and x not in w:
                    return 'output %d at bar %d is %r, not a value of its window' % (k, i, x)
                if cn[0] == 'ext' and x != (max(w) if cn[4] == 'max' else min(w)):
                    return 'output %d at bar %d is %r, its window has %r' % (k, i, x, (max(w) if cn[4] == 'max' else min(w)))
    return None


# ---- generation -------------------------------------------------------------------
REALS = [0.07, 0.1, 0.25, 0.5, 0.7, 1.0, 1.5, 2.0, 3.0]


def gen_opts(rng, name):
    f, kinds, kw = specs.SPECS[name]
    if name == 'macd' and rng.random() < .2:
        return [12.0, 26.0, float(rng.randint(1, 12))]
    o = []
    hi = rng.choice([3, 6, 12, 12, 30])
    if len(kinds) > 4:
        hi = max(hi, 6)
    for k, t in enumerate(kinds):
        if t == 'i':
            lo, h = 1, hi
            rg = kw.get('ranges', [])
            if k < len(rg):
                lo, h = rg[k][0], min(rg[k][1] or 10 ** 9, max(hi, rg[k][0] + 3))
            v = rng.randint(lo, h)
            if kw.get('even'):
                v = max(2, v // 2 * 2)
            o.append(float(v))
        else:
            o.append(rng.choice(REALS))
    if rng.random() < .6:
        ks = [k for k, t in enumerate(kinds) if t == 'i']
        for k, v in zip(ks, sorted(o[k] for k in ks)):
            o[k] = v
        if rng.random() < .5:
            for a, b in zip(ks, ks[1:]):
                if o[b] <= o[a] and not kw.get('even'):
                    o[b] = o[a] + 1
    if name == 'psar':
        o = sorted(o)
        o[1] += .01 * (o[0] == o[1])
    return o


def grid_bars(rng, n):
    """prices on a coarse grid (sums are exact): ties, flat stretches, jumps"""
    unit = rng.choice([3 / 8, 3 / 4, 3.0])
    base = rng.choice([8, 40, 200])
    mode = rng.random()
    steps = [0, 0, 1, -1] if mode < .4 else [0, 1, -1, 2, -2, 5, -5] if mode < .8 else [0, 0, 0, 0, 0, 0, 7, -7]
    k, c = base, []
    hold = 0
    for _ in range(n):
        if hold > 0:
            hold -= 1
        else:
            k = max(2, k + rng.choice(steps))
            if rng.random() < .06:
                hold = rng.randint(2, 15)
        c.append(k)
    def near(a, b, sgn):
        return [max(1, (max(x, y) if sgn > 0 else min(x, y)) + sgn * rng.choice([0, 0, 1, 2])) for x, y in zip(a, b)]
    op = [max(2, x + rng.choice([0, 0, 1, -1])) for x in c]
    if rng.random() < .3:
        op = list(c)
    hi, lo = near(c, op, 1), near(c, op, -1)
    if rng.random() < .3:
        hi, lo = [max(a, b) for a, b in zip(c, op)], [min(a, b) for a, b in zip(c, op)]
    v = [float(rng.choice([16, 32, 32, 48, 64, 96])) for _ in range(n)]
    return [[x * unit for x in s] for s in (c, op, hi, lo)] + [v]


def gen_bars(rng, sp, n):
    """positive prices, low <= open, close <= high, positive volume"""
    names = [str(x) for x in (sp.row[2] or [])]
    if rng.random() < .35 and sp.name not in ('acos', 'asin'):
        c, op, hi, lo, v = grid_bars(rng, n)
        out, used = [], False
        for nm in names:
            out.append(list(hi if nm == 'high' else lo if nm == 'low' else op if nm == 'open' else v if nm == 'volume' else c if nm == 'close' or not used else grid_bars(rng, n)[0]))
            used = used or nm not in ('high', 'low', 'open', 'volume', 'close')
        return out
    vol = rng.choice([.002, .01, .03, .1])
    p, c = rng.choice([3.0, 20.0, 100.0]), []
    trend = rng.uniform(-vol, vol) / 3
    for _ in range(n):
        c.append(p)
        p *= math.exp(rng.uniform(-vol, vol) + trend)
        if rng.random() < .03:
            trend = -trend
    op = [x * math.exp(rng.uniform(-vol, vol) / 2) for x in c]
    hi = [max(a, b) * (1 + rng.random() * vol / 2) for a, b in zip(c, op)]
    lo = [min(a, b) * (1 - rng.random() * vol / 2) for a, b in zip(c, op)]
    v = [rng.uniform(10, 1000) for _ in range(n)]
    if rng.random() < .08:
        k = float(rng.choice([1, 2, 64]))
        c, op, hi, lo, v = [k] * n, [k] * n, [k] * n, [k] * n, [32.0] * n
    out, used = [], False
    for nm in names:
        out.append(hi if nm == 'high' else lo if nm == 'low' else op if nm == 'open' else v if nm == 'volume' else c if nm == 'close' or not used else
                   [x * math.exp(rng.uniform(-vol, vol)) for x in c])
        used = used or nm not in ('high', 'low', 'open', 'volume', 'close')
        out[-1] = list(out[-1])
    if sp.name in ('acos', 'asin'):
        out = [[rng.uniform(-1, 1) for _ in range(n)]]
    return out


def causal(r, c, rng):
    from search import causal_batch
    if 'cut' not in c:
        n = len(c['inputs'][0]) if c['inputs'] else 0
        c['cut'] = rng.randint(max(0, n - 8), n) if rng.random() < .3 else rng.randint(0, n)
        # what follows is unlike what came before
        if rng.random() < .5:
            q = rng.choice([.01, .5, 3.0, 1e4])
            c['inputs'] = [s[:c['cut']] + [x * q for x in s[c['cut']:]] for s in c['inputs']]
    return causal_batch(r, c, rng)


ORACLES = dict(causal=causal, spec_batch=spec_batch, stream_spec=stream_spec, ranges=ranges)


def values(nat, name, kind, oracle, seed=1, budget=1.0, ncases=200, runner=None, hints=()):
    """search on ordinary bars and whole-number periods"""
    import time
    from native import Runner, pieces
    from search import case
    rng = random.Random('%s/%s/%s/%s' % (seed, name, kind, oracle))
    r = runner or Runner(nat, name)
    sp, n, fn = r.sp, 0, ORACLES[oracle]
    try:
        r.up()
        t0 = time.time()
        if kind == 'ref' and not r.have & 2 or kind == 'stream' and not r.have & 4 or kind == 'batch' and not r.have & 1:
            return None, 0
        for sz, op in hints:
            budget += .4
        todo = [h for h in hints for _ in range(30)]
        while n < ncases + 30 * len(hints) and time.time() - t0 < budget:
            o = gen_opts(rng, name)
            hsz = None
            if todo:
                hsz, op = todo.pop()
                o = [op.get(k, x) for k, x in enumerate(o)]
            try:
                st = r.batch(o, gen_bars(rng, sp, 0))['start'] if sp.nopt else 0
            except Crash:
                st = 10
            st = max(0, min(st, 500 if hsz is None else 5500))
            sz = st + (rng.randint(1, 6) if rng.random() < .3 else rng.randint(5, 60) if rng.random() < .9 else rng.randint(60, 200))
            if hsz is not None and hsz <= 3000 and rng.random() < .3:
                sz = hsz
            c = case(name, kind, o, gen_bars(rng, sp, sz))
            if kind == 'stream':
                c['chunks'] = pieces(rng, sz)
            n += 1
            why = fn(r, c, rng)
            if why:
                c['oracle'] = oracle
                return (c, why), n
    finally:
        if runner is None:
            r.close()
    return None, n
