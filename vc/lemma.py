"""Ranges and orders (P10) as lemmas over the definitions.

P07's contract says which sequence a function writes; here the documented range
is derived from that sequence, for every bar, every period and every input.  A
recursion or windowed sum of the definition is a ghost; facts about ghosts
(signs, bounds, a ghost below another, a sum of squares above the square of the
sum) are guessed from a few templates and kept only when proved by induction
over the bars (over the number of terms for a sum).  The range is then one
query over the facts that were kept."""
import itertools, time
import z3
import seq, specs, solve
from terms import zr, zi, zb
from execu import Unsupported

L, H = z3.Real('hull.lo'), z3.Real('hull.hi')
I0 = z3.Int('bar')
TIMEOUT = 1500


class Ob:
    def __init__(self, kind, where):
        self.kind, self.where, self.status = kind, where, 'sat'


def real(v):
    return z3.RealVal(str(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else zr(v) if z3.is_real(v) else z3.ToReal(v)


class Lemma:
    def __init__(self, sp, sy, positive, hull):
        self.sp, self.sy, self.positive, self.hull = sp, sy, positive, hull
        self.names = [str(v) for v in (sp.row[2] or [])]
        self.facts, self.vars, self.memo, self.used = [], {}, {}, {}
        self.keep = {}          # ghost number -> list of facts (name, lambda v, m)
        self.pairs = {}         # (n1, n2) -> list
        self.nq = self.n = 0
        self.roots = {}
        self.base = []
        for k, c in enumerate(sy.kinds):
            o = sy.opts[k]
            if c == 'i':
                rg = (sy.kw.get('ranges') or [])
                lo, hi = rg[k] if k < len(rg) and rg[k] else (1, None)
                o = o.plain() if hasattr(o, 'plain') else o
                if z3.is_expr(o):
                    self.base.append(o >= (lo if lo is not None else 1))
                    if hi is not None:
                        self.base.append(o <= hi)
            elif z3.is_expr(o):
                self.base.append(real(o) > 0)
        if hull:
            self.base.append(L <= H)

    def fresh(self, what):
        self.n += 1
        return z3.Real('%s!%d' % (what, self.n))

    def shift(self, a, b):
        r = z3.simplify(zi(a) + zi(b)) if z3.is_expr(a) or z3.is_expr(b) else a + b
        return r.as_long() if z3.is_expr(r) and z3.is_int_value(r) else r

    # ---- terms
    def ghosts(self, n, sh, m=None):
        k = (n, str(sh))
        if k not in self.vars:
            v = self.vars[k] = z3.Real('g%d@%s' % k)
            self.used.setdefault(str(sh), []).append((n, v))
            x = self.sy.rep[n]
            mm = real(x.n) if isinstance(x, seq.Sum) else None
            for nm, f in self.keep.get(n, ()):
                self.facts.append(f(v, mm))
            for q, w in self.used[str(sh)]:
                for (a, b), x1, x2 in (((n, q), v, w), ((q, n), w, v)):
                    for nm, f in self.pairs.get((a, b), ()):
                        self.facts.append(f(x1, x2, mm, z3.ToReal(I0 - zi(sh)) - mm if mm is not None else None))
            if isinstance(x, (seq.Ext, seq.ExtAge)):
                self.extreme(x, v, sh)
            if isinstance(x, seq.Sum):
                y = telescoping(self, x)
                if y is not None:
                    d = self.val(y, sh) - self.val(y, self.shift(sh, x.n))
                    self.facts += [v >= d, v >= -d]
        return self.vars[k]

    def extreme(self, x, v, sh):
        if isinstance(x, seq.ExtAge):
            self.facts += [v >= 0, v <= real(x.n) - 1]
            return
        y = self.val(x.x, sh)
        self.facts.append(v >= y if x.op == 'max' else v <= y)
        # all values of the window lie within the path between its ends
        for q in self.sumsof(x.x):
            if self.longer(q, x.n):
                w = self.ghosts(self.sy.num[id(q)], sh)
                for n, u in list(self.used[str(sh)]):
                    z = self.sy.rep[n]
                    if isinstance(z, seq.Ext) and z.op != x.op and self.sy.num.get(id(z.x)) == self.sy.num.get(id(x.x)) and self.longer(q, z.n):
                        self.facts += [v - u <= w if x.op == 'max' else u - v <= w]

    def sumsof(self, y):
        return [z for z in self.sy.rep.values() if isinstance(z, seq.Sum) and telescoping(self, z) is not None and self.sy.num.get(id(telescoping(self, z))) == self.sy.num.get(id(y))]

    def longer(self, q, n):
        n, m = (v.plain() if hasattr(v, 'plain') else v for v in (n, q.n))
        return self.only(zi(n) <= zi(m) + 1)

    def only(self, g):
        s = z3.Solver()
        s.set('timeout', TIMEOUT)
        s.add(*self.base)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def val(self, x, sh=0):
        k = (self.sy.num.get(id(x), id(x)), str(sh))
        if k not in self.memo:
            self.memo[k] = self.calc(x, sh)
        return self.memo[k]

    def calc(self, x, sh):
        if isinstance(x, seq.In):
            self.bar(sh)
            return self.vars[('in', x.k, str(sh))]
        if isinstance(x, seq.Const):
            v = x.v
            if z3.is_expr(v) and z3.is_bool(v):
                return v
            if isinstance(v, bool):
                return z3.BoolVal(v)
            v = z3.simplify(real(seq.rv(v) if z3.is_expr(v) or hasattr(v, 'rv') else v))
            st = [v]
            while st:
                u = st.pop()
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() == 1 and 'sqrt' in u.decl().name():
                    w = self.roots.setdefault(u.get_id(), (u, z3.Real('root%d' % len(self.roots))))[1]
                    self.facts.append(w >= 0)
                    if self.only(u.arg(0) > 0):
                        self.facts.append(w > 0)
                    v = z3.substitute(v, (u, w))
                st += u.children()
            return v
        if isinstance(x, seq.Idx):
            return z3.ToReal(I0 - zi(sh))
        if isinstance(x, seq.Lag):
            return self.val(x.x, self.shift(sh, x.k.plain() if hasattr(x.k, 'plain') else x.k))
        if isinstance(x, seq.From):
            return z3.If(I0 - zi(sh) >= zi(x.s), self.val(x.x, sh), real(x.before))
        if isinstance(x, seq.Where):
            return z3.If(self.val(x.c, sh), self.val(x.a, sh), self.val(x.b, sh))
        if isinstance(x, seq.Prev):
            return self.ghosts(self.sy.num[id(x.r)], sh)
        if isinstance(x, (seq.Rec, seq.Sum, seq.Cum, seq.Ext, seq.ExtAge)):
            return self.ghosts(self.sy.num[id(x)], sh)
        if isinstance(x, seq.Pt):
            a = [self.val(y, sh) for y in x.args]
            op = x.op
            if op in ('and', 'or', 'not'):
                return {'and': z3.And, 'or': z3.Or, 'not': z3.Not}[op](*a)
            if op == '/':
                if z3.is_rational_value(z3.simplify(a[1])):
                    return a[0] / a[1]
                q = self.fresh('q')
                self.facts += [a[1] != 0, q * a[1] == a[0]]
                return q
            if op in ('<', '<=', '==', '!=', '+', '-', '*'):
                return {'<': lambda p, q: p < q, '<=': lambda p, q: p <= q, '==': lambda p, q: p == q, '!=': lambda p, q: p != q,
                        '+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q}[op](*a)
            if op == 'neg':
                return -a[0]
            if op == 'abs':
                return z3.If(a[0] >= 0, a[0], -a[0])
            if op == 'max':
                return z3.If(a[0] > a[1], a[0], a[1])
            if op == 'min':
                return z3.If(a[0] < a[1], a[0], a[1])
            v = self.fresh(op)
            if op == 'sqrt':
                self.facts += [v >= 0, a[0] >= 0, v * v == a[0]]
            elif op in ('exp', 'cosh'):
                self.facts += [v > 0]
            elif op in ('sin', 'cos', 'tanh'):
                self.facts += [v >= -1, v <= 1]
            return v
        raise Unsupported('no rule for ' + type(x).__name__)

    def bar(self, sh):
        if ('bar', str(sh)) in self.vars:
            return
        self.vars[('bar', str(sh))] = 1
        v = {}
        for k, nm in enumerate(self.names):
            v[nm] = self.vars[('in', k, str(sh))] = z3.Real('in%d@%s' % (k, sh))
        if len(self.names) > 1 or self.positive:
            for nm in v:
                if nm != 'real' or self.positive:
                    self.facts.append(v[nm] > 0)
        if 'high' in v and 'low' in v:
            self.facts.append(v['low'] <= v['high'])
            for c in ('open', 'close'):
                if c in v:
                    self.facts += [v['low'] <= v[c], v[c] <= v['high']]
        for k in self.hull or ():
            self.facts += [L <= self.vars[('in', k, str(sh))], self.vars[('in', k, str(sh))] <= H]

    # ---- queries
    def holds(self, goal, extra=()):
        s = z3.Solver()
        s.set('timeout', TIMEOUT)
        fs = [z3.simplify(zb(f)) for f in list(self.base) + self.facts + list(extra)]
        s.add(*fs)
        s.add(z3.simplify(z3.Not(zb(goal))))
        self.nq += 1
        r = s.check()
        if r == z3.unknown:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', TIMEOUT)
            s.add(*fs)
            s.add(z3.simplify(z3.Not(zb(goal))))
            try:
                r = s.check()
            except z3.Z3Exception:
                pass
        return r == z3.unsat

    def reset(self):
        self.facts, self.vars, self.memo, self.used = [], {}, {}, {}

    def order(self, outs):
        """ghosts, inner ones first"""
        out, seen = [], set()

        def walk(x):
            if id(x) in seen:
                return
            seen.add(id(x))
            ks = (x.x,) if isinstance(x, seq.Sum) else x.kids()
            for y in ks:
                walk(y)
            n = self.sy.num.get(id(x))
            if isinstance(x, (seq.Rec, seq.Sum, seq.Cum, seq.Ext, seq.ExtAge)) and n not in out:
                out.append(n)
        for x in outs:
            walk(x)
        return out

    def learn(self, outs, consts):
        cs = sorted(set(consts) | {0})
        unary = []
        for c in cs:
            unary += [('>=%s' % c, lambda v, m, c=c: v >= (m * c if m is not None else c)), ('<=%s' % c, lambda v, m, c=c: v <= (m * c if m is not None else c))]
        if self.hull:
            unary += [('>=lo', lambda v, m: v >= (m * L if m is not None else L)), ('<=hi', lambda v, m: v <= (m * H if m is not None else H))]
        pair = [('<=', lambda a, b, m, s=None: a <= b), ('-<=', lambda a, b, m, s=None: -a <= b)]
        if self.hull:
            pair += [('lo', lambda a, b, m, s=None: a >= L * b), ('hi', lambda a, b, m, s=None: a <= H * b)]
        # sums with the weights 1 .. m: the first counts from bar 0, the window begins after bar s
        weighted = [('w>=%s' % c, lambda a, b, m, s, c=c: a - s * b >= c * m * (m + 1) / 2) for c in cs + ([L] if self.hull else [])]
        weighted += [('w<=%s' % c, lambda a, b, m, s, c=c: a - s * b <= c * m * (m + 1) / 2) for c in cs + ([H] if self.hull else [])]
        order = self.order(outs)
        done = []
        for n in order:
            x = self.sy.rep[n]
            cand = list(unary)
            if isinstance(x, seq.Rec):
                for o, kd in zip(self.sy.opts, self.sy.kinds):
                    o = o.plain() if hasattr(o, 'plain') else o
                    if kd == 'i' and z3.is_expr(o):
                        for c in [c for c in cs if c]:
                            cand += [('>=%s*%s' % (c, o), lambda v, m, c=c, o=o: v >= c * real(o)), ('<=%s*%s' % (c, o), lambda v, m, c=c, o=o: v <= c * real(o))]
            while cand:
                bad = self.step([n], [(f, (0,)) for f in cand])
                if not bad:
                    break
                cand = [f for k, f in enumerate(cand) if k not in bad]
            if cand:
                self.keep[n] = cand
            for q in done:
                y = self.sy.rep[q]
                if type(x) is not type(y) or isinstance(x, (seq.Ext, seq.ExtAge)):
                    continue
                if isinstance(x, seq.Sum) and not same(x.n, y.n) or isinstance(x, seq.Rec) and not (same(x.s, y.s) and (x.init is None) == (y.init is None)):
                    continue
                for a, b in ((n, q), (q, n)):
                    cand = list(pair) + ([('sq', lambda a, b, m, s: z3.And(m * b >= a * a, b >= 0))] + weighted if isinstance(x, seq.Sum) else [])
                    while cand:
                        bad = self.step([a, b], [(f, (0, 1)) for f in cand])
                        if not bad:
                            break
                        cand = [f for k, f in enumerate(cand) if k not in bad]
                    if cand:
                        self.pairs[(a, b)] = cand
            done.append(n)

    def step(self, ns, cand):
        """positions of the candidates that are not inductive"""
        xs = [self.sy.rep[n] for n in ns]
        self.reset()
        bad = set()
        x = xs[0]
        s0 = None
        app = lambda f, vs, m: f[1](*vs, m) if len(vs) == 1 else f[1](*vs, m, s0)
        if isinstance(x, (seq.Ext, seq.ExtAge)):
            if isinstance(x, seq.ExtAge):
                return set(range(len(cand)))
            v = self.val(x.x, 0)              # the extreme is one of these
            return {k for k, (f, w) in enumerate(cand) if not self.holds(app(f, [v], None))}
        if isinstance(x, (seq.Sum, seq.Cum)):
            if isinstance(x, seq.Cum):
                m0 = m1 = None
            else:
                m0 = z3.Real('terms')
                self.facts.append(m0 >= 0)
                m1 = m0 + 1
                s0 = z3.Real('before.window')
                self.facts.append(z3.ToReal(I0) == s0 + m1)
            old = [z3.Real('part%d' % k) for k in range(len(xs))]
            zero = [z3.RealVal(0)] * len(xs)
            new = [o + self.val(y.x, 0) for o, y in zip(old, xs)]
            hyp = [app(f, old, m0) for f, w in cand]
            for n, o in zip(ns, old):
                hyp += [f(o, m0) for nm, f in self.keep.get(n, ())]
            for k, (f, w) in enumerate(cand):
                if not (self.holds(app(f, zero, None if m0 is None else z3.RealVal(0))) and self.holds(app(f, new, m1), hyp)):
                    bad.add(k)
            return bad
        # recursions
        hyps = []
        # facts of the previous bars: every lag the step looks at
        saved, savedp = dict(self.keep), dict(self.pairs)
        for n in ns:
            if len(ns) == 1:
                self.keep[n] = [f for f, w in cand]
        if len(ns) == 2:
            self.pairs[tuple(ns)] = [f for f, w in cand]
        try:
            body = [self.val(y.step, 0) for y in xs]
        finally:
            self.keep, self.pairs = saved, savedp
        for n in ns:
            if (n, '0') in self.vars:
                return set(range(len(cand)))
        fb = list(self.facts)
        for k, (f, w) in enumerate(cand):
            if not self.holds(app(f, body, None)):
                bad.add(k)
        self.reset()
        if x.init is not None:
            b0 = [self.val(y.init, 0) for y in xs]
            for k, (f, w) in enumerate(cand):
                if k not in bad and not self.holds(app(f, b0, None)):
                    bad.add(k)
        if any(y.before is not None for y in xs):
            b0 = [real(y.before) if y.before is not None else None for y in xs]
            for k, (f, w) in enumerate(cand):
                if k not in bad and (None in b0 or not self.holds(app(f, b0, None))):
                    bad.add(k)
        return bad


def path_lemma():
    """a sum of steps |y(j) - y(j-1)| is at least the spread of the values it passes (induction over the steps)"""
    S, mx, mn, a, c, f = z3.Reals('S mx mn a c f')
    ab = lambda t: z3.If(t >= 0, t, -t)
    s = z3.Solver()
    up, dn, T = z3.If(c > mx, c, mx), z3.If(c < mn, c, mn), S + ab(c - a)
    s.add(S >= mx - mn, mn <= a, a <= mx, S >= ab(a - f))
    s.add(z3.Not(z3.And(T >= up - dn, dn <= c, c <= up, T >= ab(c - f))))
    return s.check() == z3.unsat


def same(a, b):
    a, b = (v.plain() if hasattr(v, 'plain') else v for v in (a, b))
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    return z3.is_true(z3.simplify(zi(a) == zi(b)))


def telescoping(l, x):
    """y when x is a sum of |y - y one bar before|"""
    a = x.x
    if isinstance(a, seq.Pt) and a.op == 'abs' and isinstance(a.args[0], seq.Pt) and a.args[0].op == '-':
        p, q = a.args[0].args
        if isinstance(q, seq.Lag) and isinstance(q.k, int) and q.k == 1 and l.sy.num.get(id(q.x)) == l.sy.num.get(id(p)):
            return p
    return None


def span(x, memo):
    """bars a definition looks back; None: all"""
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (seq.Rec, seq.Cum, seq.Prev)):
        r = None
    else:
        ks = [span(y, memo) for y in ((x.x,) if isinstance(x, seq.Sum) else x.kids())]
        if any(k is None for k in ks):
            r = None
        else:
            r = z3.IntVal(0)
            for k in ks:
                r = z3.If(r >= k, r, k)
            if isinstance(x, seq.Lag):
                r = r + zi(x.k.plain() if hasattr(x.k, 'plain') else x.k)
            elif isinstance(x, (seq.Sum, seq.Ext, seq.ExtAge)):
                r = r + zi(x.n.plain() if hasattr(x.n, 'plain') else x.n) - 1
    memo[id(x)] = r
    return r


class Opt:
    """an option given to the window length of ranges.R"""
    def __init__(self, t):
        self.t = t

    def __int__(self):
        raise Unsupported('window length')


def length(f, sy):
    """window length over the symbolic options"""
    import builtins
    o = [v.plain() if hasattr(v, 'plain') else v for v in sy.opts]
    g = dict(f.__globals__, int=lambda v: v, max=lambda v: seq.imax(*v))
    import types
    return types.FunctionType(f.__code__, g)(o)


def one(sp, name, c):
    """(obligations, not proved) for one constraint"""
    from value import SymSpec
    sy = SymSpec(name, sp.nin)
    if sy.outs is None:
        raise Unsupported('no definition')
    tag = ' '.join(str(v) for v in c if not callable(v))
    if c[0] in ('one', 'ext'):
        x = sy.outs[c[1]]
        while isinstance(x, seq.Lag) and isinstance(x.k, int) and x.k == 0:
            x = x.x
        n = length(c[3], sy)
        if isinstance(x, seq.Ext) and isinstance(x.x, seq.In) and x.x.k == c[2] and same(x.n, n) and (c[0] == 'one' or x.op == c[4]):
            return 1, []
        if c[0] == 'one' and isinstance(x, seq.Lag) and isinstance(x.x, seq.In) and x.x.k == c[2]:
            l = Lemma(sp, sy, False, None)
            k = x.k.plain() if hasattr(x.k, 'plain') else x.k
            if l.holds(z3.And(zi(k) >= 0, zi(k) <= zi(n) - 1)):
                return 1, []
        return 1, [tag]
    for positive in (False, True):
        l = Lemma(sp, sy, positive, c[2] if c[0] == 'win' else None)
        outs = [sy.outs[c[1]]] + ([sy.outs[c[2]]] if c[0] == 'le' else [])
        if c[0] == 'win' and c[3] is not None:
            s = span(outs[0], {})
            if s is None or not l.holds(s <= zi(length(c[3], sy)) - 1):
                return 1, [tag]
        l.learn(outs, [b for b in c[2:] if b is not None] if c[0] == 'in' else [])
        l.reset()
        v = [l.val(x, 0) for x in outs]
        if z3.is_bool(v[0]):
            v[0] = z3.If(v[0], z3.RealVal(1), z3.RealVal(0))
        goals = []
        if c[0] == 'in':
            goals = ([v[0] >= c[2]] if c[2] is not None else []) + ([v[0] <= c[3]] if c[3] is not None else [])
        elif c[0] == 'le':
            goals = [v[0] <= v[1]]
        else:
            goals = [v[0] >= L, v[0] <= H]
        if all(l.holds(g) for g in goals) and not l.holds(z3.BoolVal(False)):
            return l.nq, []
    return l.nq, [tag]


def prove(lib, name):
    """(obligations, constraints not derived)"""
    from ranges import R
    tot, bad = 1, [] if path_lemma() else ['path']
    for c in R[name]:
        n, b = one(lib.spec(name), name, c)
        tot, bad = tot + n, bad + b
    return tot, bad


if __name__ == '__main__':
    import sys, lib as libm
    from ranges import R
    D = libm.Lib(sys.argv[1], '/tmp/tivb')
    D.prepare()
    for n in sys.argv[2:] or list(R):
        t0 = time.time()
        try:
            r = prove(D, n)
        except Exception as e:
            r = (0, ['%s %s' % (type(e).__name__, str(e)[:90])])
        print('%-12s %4d %5.1fs %s' % (n, r[0], time.time() - t0, 'OK' if not r[1] else r[1]), flush=True)
