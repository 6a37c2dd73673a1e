"""Contract of the batch (and reference) functions:
   int ti_X(int size, TI_REAL const*const* inputs, TI_REAL const* options, TI_REAL*const* outputs)"""
import random, z3
from fractions import Fraction
import ir, interp
from terms import *
from execu import *
import infer
from infer import Lin


INTEGRAL = False
SIZEMAX = 2 ** 31 - 2 ** 21


class Spec:
    """what the registry (indicators.yaml) says about an indicator"""
    def __init__(self, name, nin, nopt, nout, features=()):
        self.name, self.nin, self.nopt, self.nout, self.features = name, nin, nopt, nout, features


class BaseEnv:
    def __init__(self, spec, mods, lib):
        self.spec, self.mods, self.lib = spec, mods, lib
        self.iopt = {}
        self.case = {}          # option index -> (lo, hi) bounds of its integer part

    # -- options ---------------------------------------------------------
    def opt(self, ex, k):
        if len(self.case.get(k, ())) == 3:
            return Fraction(self.case[k][0])        # this very value
        t = z3.Real('opt%d' % k)
        if ('opt', k) not in ex.axioms_seen:
            ex.axioms_seen.add(('opt', k))
            ex.assume(z3.And(t >= -OPTBOUND, t <= OPTBOUND))
            if INTEGRAL and 'period' in self.spec.optnames[k]:
                ex.assume(t == zr(self.option_int(ex, t)))
            elif k in self.case:
                self.option_int(ex, t)
        return t

    def option_int(self, ex, t):
        """trunc(option) as an integer variable with its defining axioms"""
        key = t.get_id()
        d = ex.__dict__.setdefault('iopts', {})
        if key in d:
            return d[key][1]
        if not (z3.is_const(t) and str(t).startswith('opt')):
            return None
        cs = self.case.get(int(str(t)[3:]))
        if cs is not None and cs[0] == cs[1]:
            n = cs[0]
            ex.assume(z3.And(t >= n, t < n + 1) if n > 0 else z3.And(t > -1, t < 1) if n == 0 else z3.And(t <= n, t > n - 1))
            d[key] = (t, n)
            return n
        v = z3.Int('i' + str(t))
        if cs is not None:
            ex.assume(z3.And(v >= cs[0], v <= cs[1]))
            ex.setr(v, max(cs[0], -OPTBOUND), min(cs[1], OPTBOUND))
        ex.assume(z3.And(v >= -OPTBOUND, v <= OPTBOUND,
                         z3.Implies(t >= 0, z3.And(v >= 0, z3.ToReal(v) <= t, t < z3.ToReal(v) + 1)),
                         z3.Implies(t < 0, z3.And(v <= 0, z3.ToReal(v) >= t, t > z3.ToReal(v) - 1))))
        ex.setr(v, -OPTBOUND, OPTBOUND)
        d[key] = (t, v)
        return v

    table = None            # global table of records with pointer members (registry)

    def rmul(self, ex, x, y):
        x, y = zr(x), zr(y)
        if x.get_id() > y.get_id():
            x, y = y, x
        t = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)
        ex.keep.append(t)
        ex.axiom(('rm', t.get_id()), [z3.Implies(z3.And(x >= 0, y >= 0), t >= 0), z3.Implies(z3.And(x > 0, y > 0), t > 0),
                                      z3.Implies(z3.And(x >= 0, y >= 0, y <= 1), t <= x), z3.Implies(z3.And(x >= 0, y >= 0, x <= 1), t <= y),
                                      z3.Implies(z3.And(x >= 1, y >= 1), z3.And(t >= x, t >= y))])
        return t

    def fcmp(self, ex, op, x, y):
        return cmp(op, x, y)

    def extra_syms(self):
        return []

    def struct_site(self, o, c):
        return False

    def init_array(self, ex, key):
        return z3.Array('%s@%s+%d' % (ex.prefix, key[1], key[2]), z3.IntSort(), z3.RealSort())

    def havoc_array(self, ex, h, k, nm):
        return z3.Array(nm, z3.IntSort(), z3.RealSort())

    def select(self, ex, st, key, ix):
        return None

    def init_cell(self, ex, key, ty):
        return None

    def access_kind(self, ob, write):
        k = ob.kind
        if k == 'ro':
            return 'input-read-in-bounds'
        if k == 'out':
            return 'output-write-in-bounds' if write else 'output-read-in-bounds'
        return 'object-in-bounds'

    def on_access(self, ex, st, guard, ob, bs, e, b, n, where, write):
        pass

    def on_alloc(self, ex, on, size, reach):
        pass

    def at_header(self, ex, h, r, st):
        pass

    def at_latch(self, ex, h, cond, st, vals, old):
        pass

    def ghost_default(self, ex, k):
        return 0

    def havoc_ghost(self, ex, h, k, nm):
        v = z3.Int(nm)
        ex.setr(v, 0, 2 ** 31)
        ex.assume(v >= 0)
        return v

    def call(self, ex, c, A, i, reach):
        return NotImplemented

    # -- calls of other indicators are checked against their contracts ------
    def start_term(self, ex, name, optcells, quiet=True):
        """value of ti_<name>_start on the given option values"""
        for m in self.lib.modules_for('ti_%s_start' % name, ex.mods):
            f = m.funcs['ti_%s_start' % name]
            on = ex.fresh_name('OPTV')
            ex.objs[on] = Obj(on, 8 * len(optcells), 'opt')
            sv_st, sv_ev, cb = getattr(ex, 'st', None), ex.ev, ex.curblock
            st = St()
            for k, v in enumerate(optcells):
                st.m[('c', on, 8 * k)] = v
            ex.st = st
            ex.ev = []
            try:
                r = ex.inline(m, f, [PV([(True, on, None, 0, 0)])], True)
            finally:
                evs = ex.ev
                ex.ev, ex.st, ex.curblock = sv_ev, sv_st, cb
            for e in evs:
                if e[0] == 'A':
                    ex.ev.append(e)
                elif not quiet:
                    ex.ev.append(e)
            if not hasattr(ex, 'edges'):
                pass
            return r
        raise Unsupported('no start function for ' + name)


class BatchEnv(BaseEnv):
    kind = 'batch'
    some = False

    busy = False            # assume that there is something to write

    def setup(self, ex, st):
        sp = self.spec
        f = ex.fn
        ex.st = st
        if not hasattr(ex, 'edges'):
            ex.edges = {}
        size = z3.Int('size')
        ex.setr(size, 0, SIZEMAX)
        ex.assume(z3.And(size >= 0, size <= SIZEMAX))
        self.size = size
        ex.objs['INP'] = Obj('INP', 8 * sp.nin, 'ro')
        ex.objs['OPT'] = Obj('OPT', 8 * sp.nopt, 'opt')
        ex.objs['OUTP'] = Obj('OUTP', 8 * sp.nout, 'ro')
        start = self.start_term(ex, sp.name, [FV(self.opt(ex, k)) for k in range(sp.nopt)])
        self.start = start
        n = sub(size, start)
        if self.busy:
            ex.assume(zb(cmp('>=', n, 1)))
        if self.some and z3.is_expr(n):
            # only runs with something to write
            ex.assume(n >= 1)
            n = ex.ring.ix(n)
            if z3.is_expr(n):
                ex.setr(n, 1, 2 ** 32)
        else:
            n = ite(cmp('>', n, 0), n, 0)
        if z3.is_expr(n) and not self.some:
            nv = z3.Int('nout')
            ex.assume(nv == n)
            ex.setr(nv, 0, 2 ** 32)
            n = nv
        self.nout = n
        for k in range(sp.nin):
            ex.objs['IN%d' % k] = Obj('IN%d' % k, mulc(size, 8), 'ro')
        for k in range(sp.nout):
            ex.objs['OUT%d' % k] = Obj('OUT%d' % k, mulc(n, 8), 'out')
        P = lambda o: PV([(True, o, None, 0, 0)])
        args = [size, P('INP'), P('OPT'), P('OUTP')]
        if len(f.params) != 4:
            raise Unsupported('signature of ' + f.name)
        for (t, nm), a in zip(f.params, args):
            ex.R[nm] = a
        for k in range(sp.nout):
            st.m[('W', k)] = 0

    def init_cell(self, ex, key, ty):
        _, o, off = key
        if o == 'INP' and ty == 'ptr':
            return PV([(True, 'IN%d' % (off // 8), 0, 0, 0)])
        if o == 'OUTP' and ty == 'ptr':
            return PV([(True, 'OUT%d' % (off // 8), 0, 0, 0)])
        if o == 'OPT' and ty == 'double':
            return FV(self.opt(ex, off // 8))
        return None

    def sym(self, ex, n):
        if n == 'start':
            return self.start
        if n == 'nout':
            return self.nout
        raise infer.NA

    def on_access(self, ex, st, guard, ob, bs, e, b, n, where, write):
        if ob.kind == 'out' and write:
            k = int(ob.name[3:])
            W = st.m.get(('W', k), 0)
            if isinstance(n, int) and n == 8:
                # outputs are produced as a growing prefix
                ex.oblig('output-prefix-order', guard, And(cmp('>=', e, 0), cmp('<=', e, W)), where)
                nw = ite(cmp('>=', e, W), add(e, 1), W)
                nw = nw if guard is True else nw
                if z3.is_expr(nw):
                    ex.setr(nw, 0, 2 ** 32)
                g = guard
                st.m[('W', k)] = nw if self._sure(ex, guard) else ite(guard, nw, W)
            else:
                cnt = ex.div8(n)
                ex.oblig('output-prefix-order', guard, And(cmp('>=', e, 0), cmp('<=', e, W)), where)
                st.m[('W', k)] = imax(add(e, cnt), W)
            ex.written.setdefault(ex.curblock, set()).add(('W', k))
        if ob.kind == 'out' and not write:
            k = int(ob.name[3:])
            W = st.m.get(('W', k), 0)
            if isinstance(n, int):
                ex.oblig('output-read-after-write', guard, cmp('<', e, W), where)

    def _sure(self, ex, guard):
        r = ex.reach.get(ex.curblock)
        return guard is True or (r is not None and same(guard, r)) or ex.depth > 0

    def post(self, ex):
        for (r, st, v) in ex.rets:
            if v is None:
                raise Unsupported('void return')
            ex.oblig('return-code', r, Or(*[cmp('==', v, c) for c in (0, 1, 2)]), 'ret')
            for k in range(self.spec.nout):
                W = st.m.get(('W', k), 0)
                ex.oblig('all-outputs-written', And(r, cmp('==', v, 0)), cmp('==', W, self.nout), 'ret')
                ex.oblig('rejected-writes-nothing', And(r, cmp('!=', v, 0)), cmp('==', W, 0), 'ret')
            for on, ob in ex.objs.items():
                if ob.kind == 'heap':
                    al = st.m.get(('alloc', on), False)
                    fr = st.m.get(('freed', on), False)
                    ex.oblig('no-leak', And(r, al), fr, on)
        for (r, st, w) in ex.exc:
            ex.oblig('no-exception-escapes', r, False, w)
        for (g, on) in ex.failflags:
            for (r, st, v) in ex.rets:
                ex.oblig('oom-reported', And(r, g), cmp('==', v, 2), on)

    # ---- contracts of called indicators -----------------------------------
    def call(self, ex, c, A, i, reach):
        m = self.lib.match_call(c)
        if m is None:
            return NotImplemented
        name, kind = m
        sp = self.lib.spec(name)
        if kind == 'start':
            cells = self.read_cells(ex, A[0], sp.nopt, 'double', reach, i.line)
            return self.start_term(ex, name, cells)
        if kind not in ('batch', 'ref'):
            raise Unsupported('call ' + c)
        return self.call_batch(ex, name, sp, A, i, reach)

    def read_cells(self, ex, p, n, ty, reach, where):
        out = []
        for k in range(n):
            q = PV([(g, o, bs, add(e, k), b) for (g, o, bs, e, b) in p.alts])
            out.append(ex.load(ex.st, reach, q, ty, where))
        return out

    def call_batch(self, ex, name, sp, A, i, reach):
        size, inp, opt, outp = A
        w = i.line
        ins = self.read_cells(ex, inp, sp.nin, 'ptr', reach, w)
        opts = self.read_cells(ex, opt, sp.nopt, 'double', reach, w)
        outs = self.read_cells(ex, outp, sp.nout, 'ptr', reach, w)
        ex.oblig('callee-precondition: size >= 0', reach, cmp('>=', size, 0), w)
        st = self.start_term(ex, name, opts)
        n = sub(size, st)
        nn = ite(cmp('>', n, 0), n, 0)
        live = And(reach, cmp('>', size, 0))
        for p in ins:
            for (g, o, bs, e, b) in p.alts:
                gg = And(live, g)
                if o is not None and o.startswith('IN'):
                    ex.bounds(ex.st, gg, o, bs, e, b, mulc(size, 8), w, False)
                elif o is not None and o.startswith('OUT'):
                    k = int(o[3:])
                    ex.bounds(ex.st, gg, o, bs, e, b, mulc(size, 8), w, False)
                    ex.oblig('output-read-after-write', gg, cmp('<=', add(e, size), ex.st.m.get(('W', k), 0)), w)
                else:
                    ex.bounds(ex.st, gg, o, bs, e, b, mulc(size, 8), w, False)
        rv = ex.fint(ex.fresh_name('ret.' + name), 0, 2)
        ok = And(reach, cmp('>', nn, 0))
        self.retnow = rv
        for self.outnow, p in enumerate(outs):
            for (g, o, bs, e, b) in p.alts:
                gg = And(ok, g)
                if o is not None and o.startswith('OUT'):
                    k = int(o[3:])
                    W = ex.st.m.get(('W', k), 0)
                    ex.bounds_plain(ex.st, gg, o, bs, e, b, mulc(nn, 8), w, True)
                    ex.oblig('output-prefix-order', gg, And(cmp('>=', e, 0), cmp('<=', e, W)), w)
                    nw = imax(add(e, nn), W)
                    ex.st.m[('W', k)] = ite(And(g, cmp('==', rv, 0), cmp('>', nn, 0)), nw, W)
                    ex.written.setdefault(ex.curblock, set()).add(('W', k))
                    key, ix, off = ex.key_of(o, bs, e, b, 'double')
                else:
                    ex.bounds(ex.st, gg, o, bs, e, b, mulc(nn, 8), w, True)
                    if o is None:
                        continue
                    key, ix, off = ex.key_of(o, bs, e, b, 'double')
                if key[0] == 'c':
                    bs2 = ex.pick_region(o, off)
                    key, ix = ('a', o, bs2), (off - bs2) // 8
                ex.written.setdefault(ex.curblock, set()).add(key)
                if ex.mode == 'safe':
                    ex.st.m[key] = None
                else:
                    self.callee_writes(ex, name, key, ix, nn, i)
        self.callee_ret(ex, name, sp, opts, rv, reach, i)
        return rv

    def callee_writes(self, ex, name, key, ix, n, i):
        ex.arr_fill(ex.st, key, True, ix, add(ix, n), None)

    def callee_ret(self, ex, name, sp, opts, rv, reach, i):
        """contract of the callee: TI_INVALID_OPTION exactly for the options
        its own text rejects, TI_OUT_OF_MEMORY only if it allocates"""
        sm = callee_summary(self.lib, name)
        if sm is None:
            return
        f, oom, vs = sm
        if not oom:
            ex.assume(Implies(reach, cmp('!=', rv, 2)))
        if f is not None:
            prs = []
            for k, c in enumerate(opts):
                t = c.t
                if t is None:
                    return
                prs.append((z3.Real('opt%d' % k), zr(t)))
                if isc(t):
                    n = int(t)
                else:
                    n = None
                    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
                        n = t.arg(0)
                    if n is None:
                        n = self.option_int(ex, t)
                    if n is None:
                        n = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
                prs.append((z3.Int('iopt%d' % k), zi(n)))
            g = z3.substitute(zb(f), *prs)
            ex.assume(Implies(reach, cmp('==', rv, 1) == g if z3.is_expr(cmp('==', rv, 1)) else g))


_SUMM = {}


def callee_summary(lib, name, suffix=''):
    key = (lib.work, name, suffix)
    if key in _SUMM:
        return _SUMM[key]
    import verify
    try:
        fname = 'ti_' + name + suffix
        mod, fn = lib.find(fname)
        mods = verify.load_callees(lib, mod, fn)
        sp = lib.spec(name)
        plan, ex = verify.plan_loop(lambda pl: verify._mk(lib, mods, mod, fn, sp, pl, None, None))
        f = reject_formula(ex)
        r = (f, bool(ex.failflags), None)
        if any(i.op in ('call', 'invoke') and i.x['callee'][1:] and lib.match_call(i.x['callee'][1:]) and lib.match_call(i.x['callee'][1:])[1] in ('batch', 'ref')
               for b in fn.blocks.values() for i in b.instrs):
            r = (f, True, None)
    except (Unsupported, ir.IRError):
        r = None
    _SUMM[key] = r
    return r


def expand(ex, f):
    """replace named conditions by their definitions"""
    defs = []
    for e in ex.ev:
        if e[0] == 'A' and z3.is_eq(e[1]) and z3.is_const(e[1].arg(0)) and e[1].arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and str(e[1].arg(0)).split('.')[0].startswith('rch') :
            defs.append((e[1].arg(0), e[1].arg(1)))
    for a, b in reversed(defs):
        f = z3.substitute(f, (a, b))
    return z3.simplify(f)


def consts(f):
    out, seen, st = set(), set(), [f]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(t))
        st.extend(t.children())
    return out


def reject_formula(ex):
    """condition (over the options) under which TI_INVALID_OPTION is returned,
    or None if it is not a condition over the options alone"""
    f = Or(*[And(r, cmp('==', v, 1)) for (r, st, v) in ex.rets])
    f = expand(ex, zb(f))
    f = z3.Then('simplify', 'ctx-simplify', 'simplify')(f).as_expr()
    if not foreign(f):
        return f
    # project: atoms over anything but the options are replaced by a constant;
    # accepted only if the solver proves the result equivalent
    import solve
    s = z3.Solver()
    solve.limit(s, 2000)
    for k in range(ex.env.spec.nopt):
        o, i = z3.Real('opt%d' % k), z3.Int('iopt%d' % k)
        s.add(z3.Implies(o >= 0, z3.And(i >= 0, z3.ToReal(i) <= o, o < z3.ToReal(i) + 1)),
              z3.Implies(o < 0, z3.And(i <= 0, z3.ToReal(i) >= o, o > z3.ToReal(i) - 1)))
    for c in (False, True):
        g = drop_foreign(f, z3.BoolVal(c), {})
        s.push()
        s.add(f != g)
        r = s.check()
        s.pop()
        if r == z3.unsat:
            return z3.simplify(g)
    return None


def foreign(f):
    return any(not (c.startswith('opt') or c.startswith('iopt')) for c in consts(f))


def drop_foreign(t, c, memo):
    k = t.get_id()
    if k in memo:
        return memo[k]
    if not foreign(t):
        r = t
    elif z3.is_and(t):
        r = z3.And(*[drop_foreign(x, c, memo) for x in t.children()])
    elif z3.is_or(t):
        r = z3.Or(*[drop_foreign(x, c, memo) for x in t.children()])
    elif z3.is_not(t):
        r = z3.Not(drop_foreign(t.arg(0), c, memo))
    elif z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bool(t):
        r = z3.If(*[drop_foreign(x, c, memo) for x in t.children()])
    else:
        r = c
    memo[k] = r
    return r
