"""P08: the containers of utils/ under contract.

The abstract value of a ring buffer of capacity n is the sequence
view(0..n-1), view(k) being the value stored k steps ago.  Each operation is
verified, for every state satisfying the invariant 0 <= pos < n, every
argument and (runtime-sized buffers) every capacity, against its effect on the
view; the statement of the property for a whole history follows by induction
over the operations.  Values are real numbers (NaN is outside the contract of
the extremum queries)."""
import os, z3
import ir, verify, solve, infer
from terms import *
from execu import *
from batch import BaseEnv

HERE = os.path.dirname(os.path.abspath(__file__))
SIZES = (1, 2, 3, 4, 5, 7, 13, 0)
MMAX = 2 ** 27
MINUS = {'max': '<=', 'min': '>='}


def unit(lib):
    return ir.parse(open(lib.compile('rings', os.path.join(HERE, '..', 'native', 'rings.cc'), flags=['-I', lib.src])).read())


class Dummy:
    nopt, nin, nout, optnames, name, features = 0, 0, 0, [], 'rings', ()


class RingEnv(BaseEnv):
    def __init__(self, lib, mods, N, op):
        BaseEnv.__init__(self, Dummy, mods, lib)
        self.N, self.op = N, op
        self.raw = op in ('new', 'resize')

    def setup(self, ex, st):
        N = self.N
        if N == 0 and self.op not in ('new',):
            self.n = ex.fint('cap', 1, MMAX)
        else:
            self.n = N
        self.arr = z3.Array('A0', z3.IntSort(), z3.RealSort())
        self.pos = ex.fint('pos', 0, MMAX)
        ex.assume(cmp('<', self.pos, self.n) if not (N == 0 and self.op == 'new') else True)
        self.size = {0: 16, 2: 16}.get(N, 8 * N + 8)
        ex.objs['RB'] = Obj('RB', self.size, 'stream')
        if N == 0:
            ex.objs['BUF'] = Obj('BUF', mulc(self.n, 8), 'sub')
            st.m[('alloc', 'BUF')] = True
            st.m[('freed', 'BUF')] = False
        if N not in (0, 2):
            ex.region('RB', 0, 8 * N)
        P = lambda o, bs=None, e=0: PV([(True, o, bs, e, 0)])
        ps = ex.fn.params
        ex.R[ps[0][1]] = P('RB')
        self.x = z3.Real('x')
        if self.op in ('get', 'at'):
            self.i = ex.fint('i', 0, MMAX)
            ex.assume(cmp('<', self.i, self.n))
            ex.R[ps[1][1]] = self.i
        elif self.op in ('put', 'push'):
            ex.R[ps[1][1]] = FV(self.x)
        elif self.op in ('max', 'min'):
            self.m = ex.fint('m', 1, MMAX)
            ex.assume(cmp('<=', self.m, self.n))
            ex.R[ps[1][1]] = self.m
        elif self.op == 'age':
            self.j = ex.fint('j', 0, MMAX)
            ex.assume(cmp('<', self.j, self.n))
            if N == 2:
                ex.R[ps[1][1]] = PV([(cmp('==', self.j, 0), 'RB', None, 0, 0), (cmp('!=', self.j, 0), 'RB', None, 1, 0)])
            else:
                o = 'BUF' if N == 0 else 'RB'
                ex.R[ps[1][1]] = P(o, ex_region(ex, o), self.j)
        elif self.op in ('new', 'resize') and N == 0:
            self.m = ex.fint('m', 1, MMAX)
            ex.R[ps[1][1]] = self.m
        # the rigid age every quantified statement is about
        self.k = ex.fint('k', 0, MMAX)
        ex.assume(cmp('<', self.k, self.n) if not (N == 0 and self.op == 'new') else True)

    def init_cell(self, ex, key, ty):
        _, o, off = key
        if self.op == 'new':
            return None
        if o == 'RB':
            if self.N == 0:
                return {0: self.n, 4: self.pos}.get(off) if ty != 'ptr' else (PV([(True, 'BUF', None, 0, 0)]) if off == 8 else None)
            if self.N == 2:
                return FV(z3.Select(self.arr, off // 8)) if ty == 'double' else None
            if off == 8 * self.N and ty == 'i32':
                return self.pos
            if ty == 'double' and off < 8 * self.N:
                return FV(z3.Select(self.arr, off // 8))
        return None

    def init_array(self, ex, key):
        if key[1] == ('BUF' if self.N == 0 else 'RB') and key[2] == 0:
            return self.arr
        return BaseEnv.init_array(self, ex, key)

    # the view in a state: slot number of age k, and value in a slot
    def slot(self, pos, k, n=None):
        if self.N == 2:
            return k
        n = self.n if n is None else n
        t = add(pos, k)
        return ite(cmp('>=', t, n), sub(t, n), t)

    def posof(self, ex, st):
        if self.N == 2:
            return 0
        k = ('c', 'RB', 4 if self.N == 0 else 8 * self.N)
        return ex.coerce(st.m.get(k, self.pos), 'i32')

    def value(self, ex, st, s, o=None):
        if self.N == 2:
            c = [ex.coerce(st.m.get(('c', 'RB', 8 * j), FV(z3.Select(self.arr, j))), 'double').t for j in (0, 1)]
            return z3.If(zb(cmp('==', s, 0)), zr(c[0]), zr(c[1]))
        o = o or ('BUF' if self.N == 0 else 'RB')
        a = st.m.get(('a', o, 0))
        cells = {k[2]: v for k, v in st.m.items() if k[0] == 'c' and k[1] == o and o == 'RB' and k[2] < 8 * self.N} if a is None else {}
        if a is None:
            a = ex.initial.get(('a', o, 0))
            if a is None:
                a = self.arr if not ex.objs[o].zero else z3.K(z3.IntSort(), z3.RealVal(0))
        t = z3.Select(a, zi(s))
        for off, v in cells.items():
            t = z3.If(zb(cmp('==', s, off // 8)), zr(ex.coerce(v, 'double').t), t)
        return t

    def old(self, k):
        return z3.Select(self.arr, zi(self.slot(self.pos, k)))

    def now(self, ex, st, k):
        return self.value(ex, st, self.slot(self.posof(ex, st), k))

    def post(self, ex):
        op, k, n, N = self.op, self.k, self.n, self.N
        ob = lambda kind, g, f: ex.oblig(kind, g, zb(f), 'ret')
        for (g, st, v) in ex.rets:
            if op not in ('new', 'resize', 'free'):
                ob('invariant-kept', g, And(cmp('>=', self.posof(ex, st), 0), cmp('<', self.posof(ex, st), n)))
                if N == 0:
                    ob('capacity-kept', g, cmp('==', ex.coerce(st.m.get(('c', 'RB', 0), n), 'i32'), n))
                    p = st.m.get(('c', 'RB', 8))
                    ob('storage-kept', g, p is None or p.alts == [(True, 'BUF', None, 0, 0)])
            if op in ('cur', 'get'):
                ob('age-query', g, zr(v.t) == self.old(0 if op == 'cur' else self.i))
            if op == 'at':
                self.points(ex, g, st, v, lambda s: cmp('==', s, self.slot(self.pos, self.i)), 'age-query')
            if op in ('cur', 'get', 'at', 'max', 'min', 'begin', 'end', 'age'):
                ob('query-changes-nothing', g, self.now(ex, st, k) == self.old(k))
            if op == 'step':
                ob('step-ages-values', g, z3.Implies(zb(cmp('>=', k, 1)), self.now(ex, st, k) == self.old(sub(k, 1))))
            if op == 'put':
                ob('store-newest', g, self.now(ex, st, 0) == self.x)
                ob('store-keeps-older', g, z3.Implies(zb(cmp('>=', k, 1)), self.now(ex, st, k) == self.old(k)))
            if op == 'push':
                ob('push-newest', g, self.now(ex, st, 0) == self.x)
                ob('push-ages-values', g, z3.Implies(zb(cmp('>=', k, 1)), self.now(ex, st, k) == self.old(sub(k, 1))))
            if op in ('max', 'min'):
                def good(s):
                    age = ite(cmp('>=', s, self.pos), sub(s, self.pos), sub(add(s, n), self.pos)) if N != 2 else s
                    return And(cmp('<', age, self.m), cmp('>=', age, 0), cmp('>=', s, 0), cmp('<', s, n),
                               Implies(cmp('<', k, self.m), cmp('<=' if op == 'max' else '>=', self.old(k), z3.Select(self.arr, zi(s)))))
                self.points(ex, g, st, v, good, 'extremum')
            if op == 'age':
                d = sub(self.j, self.pos) if N != 2 else self.j
                ob('age-of-position', g, cmp('==', v, ite(cmp('<', d, 0), add(d, n), d)))
            if op in ('begin', 'end'):
                self.points(ex, g, st, v, lambda s: cmp('==', s, 0 if op == 'begin' else n), 'storage-range')
            if op in ('new', 'resize'):
                m = self.m if N == 0 else N
                if N == 0:
                    ob('capacity-set', g, cmp('==', ex.coerce(st.m.get(('c', 'RB', 0), ZERO), 'i32'), m))
                    p = st.m.get(('c', 'RB', 8))
                    for (ga, o, bs, e, b) in (p.alts if isinstance(p, PV) else [(True, '?', None, 0, 0)]):
                        gg = And(g, ga)
                        if gg is False:
                            continue
                        if o not in ex.objs or ex.objs[o].kind != 'heap':
                            ob('storage-allocated', gg, False)
                            continue
                        ob('storage-allocated', gg, And(e == 0 and b == 0, cmp('>=', ex.objs[o].size, mulc(m, 8)), st.m.get(('alloc', o), False), Not(st.m.get(('freed', o), False))))
                        ob('empty-reads-zero', And(gg, cmp('<', k, m)), self.value(ex, st, k, o) == 0)
                    if op == 'resize':
                        ob('old-storage-released', g, st.m.get(('freed', 'BUF'), False))
                else:
                    ob('empty-reads-zero', g, self.now(ex, st, k) == 0)
                ob('position-set', g, And(cmp('>=', self.posof(ex, st), 0), cmp('<', self.posof(ex, st), m)))
            if op == 'free':
                ob('storage-released', g, st.m.get(('freed', 'BUF'), False))
        for (g, st, w) in ex.exc:
            ob('no-exception', And(g, op not in ('new', 'resize') or N != 0), False)

    def points(self, ex, g, st, v, f, kind):
        o = 'BUF' if self.N == 0 else 'RB'
        for (ga, ob, bs, e, b) in v.alts:
            ex.oblig(kind, And(g, ga), And(ob == o and b == 0, f(e)) if ob == o else False, 'ret')


def ex_region(ex, o):
    ex.region(o, 0, ex.env.N * 8 if o == 'RB' else 8)
    return 0


class Below:
    """age k lies in the scanned part of the storage => its value does not
    exceed the value at a pointer"""
    def __init__(self, q, c, lo, lc, hi, hc, op):
        self.q, self.c, self.lo, self.lc, self.hi, self.hc, self.op = q, c, lo, lc, hi, hc, op

    def formula(self, ex, h, st, R):
        try:
            g = lambda v: self.val(ex, v, st, R)
            lo, hi, q = add(g(self.lo), self.lc), add(g(self.hi), self.hc), add(g(self.q), self.c)
        except infer.NA:
            return None
        env = ex.env
        s = env.slot(env.pos, env.k)
        return Implies(And(cmp('<=', lo, s), cmp('<', s, hi)), cmp(self.op, env.value(ex, st, s), env.value(ex, st, q)))

    def val(self, ex, v, st, R):
        if v[0] == 'q':
            p = R.get(v[1])
            if not isinstance(p, PV):
                raise infer.NA
            a = [x for x in p.alts if x[1] in ('RB', 'BUF')]
            if len(a) != 1 or a[0][4] != 0:
                raise infer.NA
            return a[0][3]
        return infer.vget(ex, v, st, R)


class Zeroed:
    """the slots before a cursor hold zero"""
    def __init__(self, v, c):
        self.v, self.c = v, c

    def formula(self, ex, h, st, R):
        try:
            hi = add(Below.val(self, ex, self.v, st, R), self.c)
        except infer.NA:
            return None
        env = ex.env
        return Implies(cmp('<', env.k, hi), env.value(ex, st, env.k) == 0)


def candidates(ex):
    invs = {}
    ranks = {}
    env = ex.env
    for h in ex.cfg.headers:
        out = []
        ptrs, dom = [('q', i.res) for i in ex.phis(h) if i.ty == 'ptr'], []
        for b in ex.cfg.rpo:
            if b != h and ex.cfg.dominates(b, h):
                dom += [('q', i.res) for i in ex.fn.blocks[b].instrs if i.ty == 'ptr' and i.res is not None and isinstance(ex.R.get(i.res), PV)]
        dom = dom[-14:]
        ints = [('p', i.res) for i in ex.phis(h) if i.ty in ('i32', 'i64')]
        n = env.n if isinstance(env.n, int) else None
        for x in ptrs + ints:
            out.append(infer.Lin([(x, 1)], 0, '>='))
            out.append(infer.Lin([(x, 1)], -1, '>='))
            for y in ptrs + dom + ints:
                if x is not y:
                    for c in (-1, 0, 1):
                        out.append(infer.Lin([(x, 1), (y, -1)], c, '>='))
                        out.append(infer.Lin([(x, -1), (y, 1)], c, '>='))
        if env.op == 'new':
            out += [Zeroed(x, c) for x in ptrs + ints for c in (-1, 0)]
        for best in ptrs:
            for cur in ptrs:
                if cur is best:
                    continue
                for y in dom:
                    for c in (-1, 0):
                        for lc in (-1, 0, 1):
                            for op in ('<=', '>='):
                                out.append(Below(best, c, cur, lc, y, 0, op))
                                out.append(Below(best, c, y, 0, cur, lc, op))
        invs[h] = out
        ranks[h] = [([(x, s)], 0) for x in ptrs + ints for s in (1, -1)] + \
                   [([(x, s), (y, -s)], 0) for x in ptrs + ints for y in dom for s in (1, -1)]
    return invs, ranks


def prove(lib, N, op, fname=None, envcls=RingEnv, tmo=6000):
    m = unit(lib)
    fname = fname or 'ring%d_%s' % (N, op)
    r = verify.Result(fname)
    r.vacuous = False
    fn = m.funcs[fname]
    fn.parser.body(fn)

    def mk(plan, invs=None, ranks=None):
        ex = Exec(m, fn, envcls(lib, [m], N, op), 'real', '', plan, invs, allocfail=True, mods=[m])
        ex.ranks = ranks or {}
        return ex
    plan, ex = verify.plan_loop(mk)
    if ex.cfg.headers:
        invs, ranks = candidates(ex)
        ex = mk(plan, invs, ranks)
        ex.run()
        keep = set(map(id, solve.houdini(ex, 3000)))
        for h in invs:
            invs[h] = [i for i in invs[h] if id(i) in keep]
        ex = mk(plan, invs, ranks)
        ex.run()
        ranks = verify.pick_ranks(ex, invs, ranks, 3000)
        ex = mk(plan, invs, ranks)
        ex.run()
        r.ninv = sum(map(len, invs.values()))
    ex.env.post(ex)
    r.total, r.done, r.fails, s = solve.discharge(ex, tmo)
    r.kinds = verify.kinds_of(ex, None)
    r.vacuous = verify.vacuous(ex, s, 2000)
    return r


OPS = ('cur', 'get', 'step', 'put', 'push', 'max', 'min', 'begin', 'end', 'age', 'new')


def functions():
    out = []
    for N in SIZES:
        for op in OPS + (('resize', 'free') if N == 0 else ('at',)):
            out.append((N, op))
    return out


# ---- ti_buffer ------------------------------------------------------------------
class BufEnv(RingEnv):
    """view(k) is the value pushed k pushes ago; while fewer values than the
    capacity were pushed, index counts them"""
    def setup(self, ex, st):
        P = lambda o: PV([(True, o, None, 0, 0)])
        ps = ex.fn.params
        if self.op == 'new':
            self.m = ex.fint('m', 1, MMAX)
            ex.R[ps[0][1]] = self.m
            return
        self.n = n = ex.fint('cap', 1, MMAX)
        self.pos = ex.fint('index', 0, MMAX)
        self.p = ex.fint('pushes', 0, 2 ** 31 - 2)
        self.sum = z3.Real('sum')
        self.x = z3.Real('x')
        self.k = ex.fint('k', 0, MMAX)
        self.arr = z3.Array('A0', z3.IntSort(), z3.RealSort())
        ex.assume(And(cmp('<', self.pos, n), cmp('<', self.k, n), Implies(cmp('<', self.p, n), cmp('==', self.pos, self.p))))
        ex.objs['TB'] = Obj('TB', add(mulc(n, 8), 24), 'stream')
        st.m[('alloc', 'TB')] = True
        st.m[('freed', 'TB')] = False
        ex.plan.structs.add('TB')
        ex.plan.regions.setdefault('TB', {})[24] = None
        ex.R[ps[0][1]] = P('TB')
        if self.op in ('push', 'qpush'):
            ex.R[ps[1][1]] = FV(self.x)
        if self.op == 'get':
            self.i = ex.fint('i', -MMAX, 1)
            ex.assume(cmp('>', self.i, sub(0, n)))
            ex.R[ps[1][1]] = self.i

    def init_cell(self, ex, key, ty):
        if key[1] != 'TB':
            return None
        return {0: self.n, 4: self.p, 8: self.pos}.get(key[2]) if ty == 'i32' else FV(self.sum) if key[2] == 16 else None

    def init_array(self, ex, key):
        return self.arr if key[1:] == ('TB', 24) else BaseEnv.init_array(self, ex, key)

    def at(self, pos, k):
        t = sub(sub(pos, 1), k)
        return ite(cmp('<', t, 0), add(t, self.n), t)

    def post(self, ex):
        op = self.op
        ob = lambda kind, g, f: ex.oblig(kind, g, zb(f), 'ret')
        for (g, st, v) in ex.rets:
            cell = lambda off, d: ex.coerce(st.m.get(('c', 'TB', off), d), 'i32')
            if op == 'new':
                for (ga, o, bs, e, b) in v.alts:
                    gg = And(g, ga)
                    if gg is False or o is None:
                        continue
                    if o not in ex.objs or ex.objs[o].kind != 'heap':
                        ob('buffer-allocated', gg, False)
                        continue
                    c = lambda off, t='i32': ex.coerce(st.m.get(('c', o, off), ZERO if ex.objs[o].zero else FV(z3.Real('uninit'))), t)
                    ob('buffer-allocated', gg, And(e == 0 and b == 0, cmp('>=', ex.objs[o].size, add(mulc(self.m, 8), 24)), st.m.get(('alloc', o), False)))
                    ob('starts-empty', gg, And(cmp('==', c(0), self.m), cmp('==', c(4), 0), cmp('==', c(8), 0), zr(c(16, 'double').t) == 0))
                for on, o in ex.objs.items():
                    if o.kind == 'heap':
                        ob('failed-allocation-reported', And(g, v.alts and Or(*[a[0] for a in v.alts if a[1] is None] or [False])), Not(st.m.get(('alloc', on), False)))
                continue
            if op == 'free':
                ob('storage-released', g, st.m.get(('freed', 'TB'), False))
                continue
            pos, p = cell(8, self.pos), cell(4, self.p)
            s = zr(ex.coerce(st.m.get(('c', 'TB', 16), FV(self.sum)), 'double').t)
            a = st.m.get(('a', 'TB', 24))
            a = self.arr if a is None else a
            val = lambda k: z3.Select(a, zi(self.at(pos, k)))
            old = lambda k: z3.Select(self.arr, zi(self.at(self.pos, k)))
            ob('invariant-kept', g, And(cmp('>=', pos, 0), cmp('<', pos, self.n), cmp('==', cell(0, self.n), self.n)))
            if op == 'get':
                k = sub(0, self.i)
                ob('age-query', g, zr(v.t) == z3.If(zb(cmp('==', k, -1)), old(sub(self.n, 1)), old(k)))
                ob('query-changes-nothing', g, And(val(self.k) == old(self.k), s == self.sum, cmp('==', p, self.p)))
                continue
            ob('push-newest', g, val(0) == self.x)
            ob('push-ages-values', g, z3.Implies(zb(cmp('>=', self.k, 1)), val(self.k) == old(sub(self.k, 1))))
            if op == 'push':
                ob('sum-of-held-values', g, s == self.sum + self.x - z3.If(zb(cmp('>=', self.p, self.n)), old(sub(self.n, 1)), 0))
                ob('held-values-counted', g, And(cmp('==', p, add(self.p, 1)), Implies(cmp('<', p, self.n), cmp('==', pos, p))))
            else:
                ob('sum-untouched', g, s == self.sum)
        for (g, st, w) in ex.exc:
            ob('no-exception', g, False)


BUFOPS = ('push', 'qpush', 'get', 'new', 'free')


def concrete(lib, N, op):
    """random histories on the real containers, against the list of values"""
    import subprocess
    d = os.path.join(lib.work, 'ring')
    exe = os.path.join(d, 'm')
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        t = '%s.%d' % (exe, os.getpid())
        x = subprocess.run(['clang++', '-std=c++17', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I', lib.src,
                            os.path.join(HERE, '..', 'native', 'ringtest.cc'), '-x', 'c++', '-DTI_BUFFER_C', os.path.join(lib.src, 'utils', 'buffer.c'), '-o', t],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if x.returncode:
            return None, 0
        os.rename(t, exe)
    try:
        x = subprocess.run([exe, str(N), op], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, env={'ASAN_OPTIONS': 'detect_leaks=1'})
        if x.returncode:
            err = [l for l in x.stderr.splitlines() if 'rror' in l]
            return dict(name='rings', kind='containers', oracle='rings', N=N, op=op, why=(x.stdout.strip() or (err or ['crash'])[0])[:400]), 1
    except subprocess.TimeoutExpired:
        return dict(name='rings', kind='containers', oracle='rings', N=N, op=op, why='does not terminate'), 1
    return None, 200
