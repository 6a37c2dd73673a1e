"""Concrete runs of the IR to collect loop-header states."""
import random
import ir, interp
from interp import Obj, NULL, NULLP


def series(rng, n, kind):
    """one input series"""
    if kind == 0:
        x, out = 50.0, []
        for _ in range(n):
            x = max(1.0, x + rng.uniform(-2, 2))
            out.append(x)
        return out
    if kind == 1:
        return [float(rng.randint(1, 5)) for _ in range(n)]
    if kind == 2:
        return [10.0 + i for i in range(n)]
    if kind == 3:
        return [max(1.0, 500.0 - i) for i in range(n)]
    return [7.0] * n


INPUTS_OHLC = {'open': 0, 'high': 1, 'low': 2, 'close': 3}


def make_inputs(rng, sp, n):
    kind = rng.choice([0, 0, 0, 1, 1, 2, 3])
    names = [str(x) for x in (sp.row[2] or [])]
    base = series(rng, n, kind)
    out = []
    for k, nm in enumerate(names):
        if nm == 'high':
            out.append([b + rng.uniform(0, 2) for b in base])
        elif nm == 'low':
            out.append([b - rng.uniform(0, 1) for b in base])
        elif nm in ('open', 'close', 'real'):
            out.append([b + rng.uniform(-.3, .3) if kind == 0 else b for b in base] if k else base)
        elif nm == 'volume':
            out.append([float(rng.randint(1, 100)) for _ in range(n)])
        else:
            out.append(series(rng, n, rng.choice([0, 1])))
    return out


def option_samples(rng, sp, case=None):
    out = []
    for k, nm in enumerate(sp.optnames):
        r = rng.random()
        nm = str(nm)
        if case and k in case:
            lo, hi = case[k][:2]
            out.append(float(rng.randint(max(lo, -2), min(hi, max(lo, 0) + 8))))
            continue
        if any(s in nm for s in ('alpha', 'step', 'maximum', 'percent', 'factor', 'phi', 'cycpart', 'weight', 'mult', 'fraction')):
            out.append(rng.choice([0.1, 0.25, 0.5, 0.7, 0.07, 1.0, 2.0, float(rng.randint(1, 9))]))
        else:
            out.append(1.0 if r < .12 else float(rng.randint(1, 9)) if r < .9 else rng.choice([1.0, 2.0, 10.0, 12.0, 20.0]))
    if not case and len(out) > 1 and rng.random() < .35:
        # many indicators want increasing (or strictly increasing) periods
        ks = [k for k, nm in enumerate(sp.optnames) if 'period' in str(nm) or 'roc' in str(nm)]
        vs = sorted(out[k] for k in ks)
        for k, v in zip(ks, vs):
            out[k] = v
        if rng.random() < .5:
            for a, b in zip(ks, ks[1:]):
                if out[b] <= out[a]:
                    out[b] = out[a] + 1
    return out


class Tracer:
    """records vocabulary rows at loop headers"""
    def __init__(self, fn, cfg, vocab, size_name='size'):
        self.fn, self.cfg = fn, cfg
        self.vocab = vocab            # h -> list of vocab items
        self.rows = {h: [] for h in cfg.headers}
        self.runs = {h: [] for h in cfg.headers}   # (entry?, row)
        self.ctx = {}
        self.W = {}

    def hook(self, it):
        def f(fn, b, R, prev):
            if fn is not self.fn or b not in self.rows:
                return
            row = []
            for v in self.vocab[b]:
                row.append(self.get(it, v, R))
            if None in row:
                row = tuple(row)
            back = prev is not None and (prev, b) in self.cfg.back
            self.rows[b].append((back, tuple(row)))
        return f

    def get(self, it, v, R):
        k = v[0]
        try:
            if k == 'p':
                x = R.get(v[1])
                return x if isinstance(x, int) else int(x) if isinstance(x, float) and x == x and abs(x) < 2 ** 31 and x == int(x) else None
            if k == 'q':
                x = R.get(v[1])
                return x[1] // 8 if isinstance(x, tuple) and x[0] is not NULL else None
            if k == 'm':
                o = it.objmap.get(v[1])
                if o is None:
                    return None
                x = o.m.get(v[2], 0)
                return x if isinstance(x, int) else None
            if k == 'mq':
                o = it.objmap.get(v[1])
                if o is None:
                    return None
                x = o.m.get(v[2])
                return x[1] // 8 if isinstance(x, tuple) and x[0] is not NULL else None
            if k == 'W':
                o = it.objmap.get('OUT%d' % v[1])
                return max(o.m, default=-8) // 8 + 1
            if k == 'sym':
                return self.ctx.get(v[1])
        except (TypeError, AttributeError):
            return None
