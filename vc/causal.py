"""P04: an output element depends only on the options and on the bars up to its
own.

Two ghost arguments, each a set of obligations on the real function:

(1) every input read is of a bar <= (elements written so far) + start, for
    every output, and no output element is written twice; so whatever has been
    computed when element k is written is a function of bars 0 .. k+start;
(2) the length of the series decides nothing about them: take any shorter
    length size'.  At every point where a term that depends on the length is
    used (a branch, a selection, an address, a conversion to floating point)
    the term has the same value for size', or all the elements of the shorter
    run have been written already.  By induction over the execution both runs
    therefore agree until the shorter one has its outputs.

Both hold for every input and every accepted real option value."""
import z3
import verify, solve, batch
from terms import *
from execu import *

KINDS = {'bar-read-not-after-output', 'element-written-once', 'length-independent-branch', 'length-independent-select', 'length-independent-address',
         'length-independent-value'}
only = lambda o: o.kind in KINDS


class CausalEnv(batch.BatchEnv):
    def setup(self, ex, st):
        self.uses = []
        batch.BatchEnv.setup(self, ex, st)
        self.size2, self.nout2 = z3.Int('size2'), z3.Int('nout2')
        ex.setr(self.size2, 0, batch.SIZEMAX)

    def on_access(self, ex, st, guard, ob, bs, e, b, n, where, write):
        if ob.kind == 'ro' and ob.name[:2] == 'IN' and ob.name[2:].isdigit() and not write:
            last = e if isinstance(n, int) and n == 8 else sub(add(e, ex.div8(n)), 1)
            for k in range(self.spec.nout):
                ex.oblig('bar-read-not-after-output', guard, cmp('<=', last, add(st.m.get(('W', k), 0), self.start)), where)
        if ob.kind == 'out' and write:
            W = st.m.get(('W', int(ob.name[3:])), 0)
            ex.oblig('element-written-once', guard, cmp('==', e, W), where)
        elif isinstance(e, (z3.ExprRef,)) or z3.is_expr(n):
            self.use(ex, 'length-independent-address', guard, e, where)
            if z3.is_expr(n):
                self.use(ex, 'length-independent-address', guard, n, where)
        batch.BatchEnv.on_access(self, ex, st, guard, ob, bs, e, b, n, where, write)

    def use(self, ex, kind, guard, t, where):
        if z3.is_expr(t):
            self.uses.append((kind, guard, t, where, [ex.st.m.get(('W', k), 0) for k in range(self.spec.nout)]))

    def call_batch(self, ex, name, sp, A, i, reach):
        raise Unsupported('calls ' + name)

    # -- which constants carry the length ---------------------------------
    def tainted(self, ex):
        dep = {}

        def link(a, b):
            dep.setdefault(a, set()).add(b)
        self.defs = {}
        for e in ex.ev:
            if e[0] != 'A':
                continue
            f = e[1]
            if z3.is_eq(f) and z3.is_bool(f.arg(0)) and z3.is_const(f.arg(0)):
                continue        # a name for a condition of the path
            cs = numeric(f)
            if len(cs) > 1:
                for a in cs:
                    for b in cs:
                        if a != b:
                            link(a, b)
        bad, work = set(), ['size', 'nout']
        rev = {}
        for a, bs in dep.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        while work:
            x = work.pop()
            for y in rev.get(x, ()):
                if y not in bad and y not in ('size', 'nout', 'size2', 'nout2') and not y.startswith(('opt', 'iopt')):
                    bad.add(y)
                    work.append(y)
        return bad

    def finish(self, ex):
        bad = self.tainted(ex)
        # what a loop carries round does not depend on the length either
        for h, (r, st, ent) in ex.hentry.items():
            for g, s, vals in [(r, st, ent)] + [(c, s, vals) for c, s, vals, b in ex.latch.get(h, ())]:
                for v in list(vals.values()) + [s.m.get(k) for k in ex.plan.mods.get(h, ()) if k[0] != 'W']:
                    for t in terms_of(v):
                        if z3.is_expr(t):
                            self.uses.append(('length-independent-value', g, t, h, [s.m.get(('W', k), 0) for k in range(self.spec.nout)]))
        s2 = self.size2
        pr = [(self.size, s2)]
        if z3.is_expr(self.nout):
            ex.assume(self.nout2 == z3.If(zi(s2) - zi(self.start) > 0, zi(s2) - zi(self.start), 0))
            pr.append((self.nout, self.nout2))
        ex.assume(z3.And(s2 >= 0, s2 < self.size))
        for kind, guard, t, where, W in self.uses:
            cs = numeric(t)
            if not cs & bad and not cs & {'size', 'nout'}:
                continue
            over = And(*[cmp('>=', add(w, self.start), s2) for w in W])
            if isinstance(over, bool):
                over = z3.BoolVal(over)
            if cs & bad:
                f = over
            else:
                f = z3.Or(zb(over), t == z3.substitute(t, *pr))
            ex.oblig(kind, guard, f, where)


def numeric(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_bool(x):
            out.add(str(x))
        st.extend(x.children())
    return out


def terms_of(v):
    if isinstance(v, FV):
        return [v.t] if v.t is not None and z3.is_expr(v.t) else []
    if isinstance(v, PV):
        return [x for a in v.alts for x in (a[0], a[3], a[4]) if z3.is_expr(x)]
    if isinstance(v, list):
        return [x for y in v for x in terms_of(y)]
    return [v] if z3.is_expr(v) else []


class CausalExec(Exec):
    def block(self, b):
        ins = self.fn.blocks[b].instrs
        Exec.block(self, b)
        i = ins[-1]
        if i.op in ('br', 'switch') and i.args and b in self.reach:
            c = self.val(i.args[0], 'i1' if i.op == 'br' else i.ty)
            self.env.use(self, 'length-independent-branch', self.reach[b], c, i.line)

    def instr(self, i, reach):
        if i.op == 'select' and i.ty == 'double':
            self.env.use(self, 'length-independent-select', reach, self.val(i.args[0], 'i1'), i.line)
        elif i.op in ('sitofp', 'uitofp'):
            self.env.use(self, 'length-independent-value', reach, self.val(i.args[0], i.x), i.line)
        elif i.op == 'store' and i.ty != 'ptr' and i.ty != 'double':
            p = self.val(i.args[1])
            v = self.val(i.args[0], i.ty)
            if z3.is_expr(v) and isinstance(p, PV) and not all(isinstance(a[3], int) for a in p.alts):
                self.env.use(self, 'length-independent-value', reach, v, i.line)
        return Exec.instr(self, i, reach)


def mk(lib, mods, mod, fn, sp, plan, invs, ranks, case=None):
    env = CausalEnv(sp, mods, lib)
    env.case = case or {}
    ex = CausalExec(mod, fn, env, 'safe', '', plan, invs, mods=mods)
    ex.ranks = {}
    return ex


def prove(lib, fname, sp, nruns=14, timeout=3000, seed=1):
    r = one(lib, fname, sp, nruns, timeout, seed, None)
    if r.undecided or not r.fails or r.time > 8:
        return r
    q = verify.split_cases(lambda c: one(lib, fname, sp, nruns, timeout, seed, c), fname, {}, verify.int_options(r.ex.fn, sp)[:4], 2)
    return r if q is None else q


def one(lib, fname, sp, nruns, timeout, seed, case):
    return verify.verify_one(lib, fname, sp, nruns, timeout, False, case, only, seed, maker=mk, post=lambda ex: ex.env.finish(ex))
