"""P03: the batch function, the reference variant and the stream constructor
accept the same option vectors.

Each entry point is executed symbolically over the same option symbols (every
other symbol - series length, data, allocation results - renamed apart), and
the solver has to refute that one returns TI_INVALID_OPTION while another (or
the same one, on different data or another length) returns TI_OKAY."""
import z3, time
import ir, verify, solve, stream
from terms import *
from execu import *
from batch import BatchEnv, consts


class Side:
    def __init__(self, what, ex, start=None):
        self.what = what
        self.A = []
        for e in ex.ev:
            if e[0] == 'A':
                self.A.append(zb(e[1]))
            elif e[0] == 'I':
                self.A.append(zb(e[2]))
        self.rej = zb(Or(*[And(r, cmp('==', v, 1)) for (r, st, v) in ex.rets]))
        self.acc = zb(Or(*[And(r, cmp('==', v, 0)) for (r, st, v) in ex.rets]))
        self.start = start
        self.reg = ex.env.start if start is None else start

    def renamed(self, tag):
        o = Side.__new__(Side)
        fs = self.A + [self.rej, self.acc]
        sub = {}
        seen, st = set(), list(fs)
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = str(t)
                if not n.startswith(('opt', 'iopt')):
                    sub[n] = (t, z3.Const(tag + n, t.sort()))
            st.extend(t.children())
        sub = list(sub.values())
        o.what = self.what
        o.A = [z3.substitute(f, *sub) for f in self.A]
        o.rej, o.acc = z3.substitute(self.rej, *sub), z3.substitute(self.acc, *sub)
        o.reg = None
        return o


def sides(lib, name):
    sp = lib.spec(name)
    out = []
    for suf in ('', '_ref'):
        if suf and 'ref' not in sp.features:
            continue
        mod, fn = lib.find('ti_' + name + suf)
        mods = verify.load_callees(lib, mod, fn)
        out.append(Side('ti_' + name + suf, lax(lambda pl: verify._mk(lib, mods, mod, fn, sp, pl, None, None))))
    if 'stream' in sp.features:
        p = stream.StreamProof(lib, name, nruns=0)
        out.append(Side('ti_%s_stream_new' % name, lax(p.mk_new)))
    return out


def lax(mk):
    try:
        return verify.plan_loop(mk)[1]
    except Unsupported:
        def mk2(pl):
            ex = mk(pl)
            ex.lenient = True
            return ex
        return verify.plan_loop(mk2)[1]


def prove_accept(lib, name, timeout=5000):
    res = verify.Result('ti_' + name + ' options')
    res.vacuous = False
    t0 = time.time()
    try:
        ss = sides(lib, name)
    except (Unsupported, ir.IRError) as e:
        res.undecided = '%s: %s' % (type(e).__name__, e)
        return res
    res.kinds = {}

    def ask(kind, where, fs):
        s = z3.Solver()
        solve.limit(s, timeout)
        s.add(*fs)
        r = s.check()
        o = Obligation(kind, True, True, where)
        res.total += 1
        res.kinds[kind] = res.kinds.get(kind, 0) + 1
        if r == z3.unsat:
            o.status = 'proved'
            res.done += 1
        else:
            o.status = 'failed' if r == z3.sat else 'unknown'
            res.fails.append((o, s.model() if r == z3.sat else None))

    rn = [s.renamed('%d!' % k) for k, s in enumerate(ss)]
    for k, s in enumerate(ss):
        o = s.renamed('self!')
        ask('rejection-depends-on-options-only', s.what, s.A + o.A + [s.rej, o.acc])
        if k:
            a, b = rn[0], rn[k]
            ask('same-options-accepted', '%s rejects, %s accepts' % (ss[0].what, s.what), a.A + b.A + [a.rej, b.acc])
            ask('same-options-accepted', '%s accepts, %s rejects' % (ss[0].what, s.what), a.A + b.A + [a.acc, b.rej])
        ask('start-not-negative', s.what, s.A + [s.acc, zb(cmp('<', s.reg, 0))])
        v = z3.Solver()
        solve.limit(v, timeout)
        v.add(*s.A)
        v.add(s.acc)
        if v.check() == z3.unsat:
            res.vacuous = True
    res.ninv = 0
    res.time = time.time() - t0
    return res
