"""Contracts of the stream functions.

   new : int  ti_X_stream_new(TI_REAL const *options, ti_stream **stream)
   run : int  ti_X_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs)
   free: void ti_X_stream_free(ti_stream *stream)

The object invariant of a stream is the conjunction of
  * the facts `new` leaves behind about the parts of the object no run changes
    (they are carried over as the terms `new` computed), and
  * the inferred relations between the integer fields, proved to be
    established by `new` and preserved by every `run`."""
import random, time, z3
import ir, interp, infer, solve, verify
from terms import *
from execu import *
from batch import BaseEnv, BatchEnv, SIZEMAX
from traces import Tracer, make_inputs, option_samples
from interp import Obj as IObj

ARG = {'new': '_stream_new', 'run': '_stream_run', 'free': '_stream_free'}


class StreamBase(BaseEnv):
    def extra_syms(self):
        return [('sym', 'iopt%d' % k) for k in range(self.spec.nopt)]

    def sym(self, ex, n):
        if n == 'start':
            return self.start
        if n.startswith('iopt'):
            v = self.option_int(ex, self.opt(ex, int(n[4:])))
            if v is None:
                raise infer.NA
            return v
        raise infer.NA

    def start_setup(self, ex, st):
        ex.st = st
        if not hasattr(ex, 'edges'):
            ex.edges = {}
        sp = self.spec
        self.start = self.start_term(ex, sp.name, [FV(self.opt(ex, k)) for k in range(sp.nopt)])

    def call(self, ex, c, A, i, reach):
        m = self.lib.match_call(c)
        if m is None:
            return NotImplemented
        name, kind = m
        if kind == 'start':
            cells = BatchEnv.read_cells(self, ex, A[0], self.lib.spec(name).nopt, 'double', reach, i.line)
            return self.start_term(ex, name, cells)
        raise Unsupported('call ' + c)


class NewEnv(StreamBase):
    kind = 'new'

    def setup(self, ex, st):
        self.start_setup(ex, st)
        ex.objs['OPT'] = Obj('OPT', 8 * self.spec.nopt, 'opt')
        ex.objs['SOUT'] = Obj('SOUT', 8, 'cell')
        P = lambda o: PV([(True, o, None, 0, 0)])
        if len(ex.fn.params) != 2:
            raise Unsupported('signature of ' + ex.fn.name)
        for (t, nm), a in zip(ex.fn.params, [P('OPT'), P('SOUT')]):
            ex.R[nm] = a

    def init_cell(self, ex, key, ty):
        _, o, off = key
        if o == 'OPT' and ty == 'double':
            return FV(self.opt(ex, off // 8))
        if ty == 'double' and ex.objs[o].kind == 'heap' and not ex.objs[o].zero:
            # named so that merges keep the written alternatives apart; Shape
            # turns whatever still mentions it into an unknown value
            return FV(z3.Real('uninit!%s+%d' % (o, off)))
        return None

    def post(self, ex):
        sh = self.shape = Shape(ex)
        for (r, st, v) in ex.rets:
            ex.oblig('return-code', r, Or(*[cmp('==', v, c) for c in (0, 1, 2)]), 'ret')
            ok, bad = And(r, cmp('==', v, 0)), And(r, cmp('!=', v, 0))
            for on, ob in ex.objs.items():
                if ob.kind != 'heap':
                    continue
                al = st.m.get(('alloc', on), False)
                fr = st.m.get(('freed', on), False)
                ex.oblig('no-leak', And(bad, al), fr, on)
                if on not in sh.names:
                    ex.oblig('no-leak', And(ok, al), fr, on)
            if sh.main is None:
                ex.oblig('stream-object-returned', ok, False, 'ret')
                continue
            ex.oblig('stream-object-returned', ok, And(sh.isobj, st.m.get(('alloc', sh.main), False), Not(st.m.get(('freed', sh.main), False))), 'ret')
            cell = lambda off: ex.coerce(st.m.get(('c', sh.main, off), ZERO), 'i32')
            ex.oblig('stream-index', ok, cmp('==', cell(0), self.index), 'ret')
            ex.oblig('initial-progress', ok, cmp('==', cell(4), sub(0, self.start)), 'ret')
        for (r, st, w) in ex.exc:
            ex.oblig('no-exception-escapes', r, False, w)
        for (g, on) in ex.failflags:
            for (r, st, v) in ex.rets:
                ex.oblig('oom-reported', And(r, g), cmp('==', v, 2), on)

    @property
    def index(self):
        return sorted(self.lib.specs).index(self.spec.name)


class Shape:
    """the object a successful `new` returns: its heap blocks, the names they
    get in run and free, and the contents of their cells"""
    def __init__(self, ex):
        self.ex = ex
        self.main, self.names, self.cells = None, {}, {}
        self.isobj = False
        rets = [(r, st, v) for (r, st, v) in ex.rets]
        if not rets:
            return
        if len(rets) > 1:
            self.st = ex.merge_states([(And(r, cmp('==', v, 0)), st) for (r, st, v) in rets])
        else:
            self.st = rets[0][1]
        self.ok = Or(*[And(r, cmp('==', v, 0)) for (r, st, v) in rets])
        s = z3.Solver()
        solve.limit(s, 3000)
        for e in ex.ev:
            if e[0] == 'A':
                s.add(e[1])
            elif e[0] == 'I':
                s.add(e[2])
        s.add(zb(self.ok))
        self.s = s
        self.possible = s.check() != z3.unsat
        p = self.st.m.get(('c', 'SOUT', 0))
        if not isinstance(p, PV):
            return
        alts = [a for a in p.alts if self.sat(a[0])]
        if len(alts) != 1 or alts[0][1] in (None, '?') or not (alts[0][3] == 0 and alts[0][4] == 0):
            return
        self.main = alts[0][1]
        self.isobj = alts[0][0]
        self.names = {self.main: 'STRM'}
        work = [self.main]
        while work:
            o = work.pop()
            for k, v in self.st.m.items():
                if k[0] == 'c' and k[1] == o and isinstance(v, PV):
                    for a in v.alts:
                        if a[1] in ex.objs and ex.objs[a[1]].kind == 'heap' and a[1] not in self.names and self.sat(a[0]):
                            self.names[a[1]] = 'SUB:' + a[1]
                            work.append(a[1])
        for k, v in self.st.m.items():
            if k[0] == 'c' and k[1] in self.names:
                self.cells[('c', self.names[k[1]], k[2])] = self.resolve(self.rename(v))
        self.zero = {self.names[o]: ex.objs[o].zero for o in self.names}

    def sat(self, g):
        if g is True:
            return True
        if g is False:
            return False
        self.s.push()
        self.s.add(zb(g))
        r = self.s.check()
        self.s.pop()
        return r != z3.unsat

    def resolve(self, v):
        """drop the alternatives a successful construction excludes"""
        if isinstance(v, FV):
            if v.t is None or isc(v.t):
                return v
            t = self.res(v.t)
            from batch import consts
            if any(c.startswith('uninit!') for c in consts(t)):
                return TOP
            return FV(t)
        if z3.is_expr(v):
            t = self.res(v)
            if z3.is_int_value(t):
                return t.as_long()
            if t is not v:
                self.ex.setr(t, *self.ex.range(v))
            return t
        return v

    def res(self, t):
        while z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            k = c.get_id()
            if not hasattr(self, 'memo'):
                self.memo = {}
            if k not in self.memo:
                self.memo[k] = (c, 'a' if not self.sat(z3.Not(c)) else 'b' if not self.sat(c) else None)
            w = self.memo[k][1]
            if w is None:
                a, b = self.res(t.arg(1)), self.res(t.arg(2))
                return z3.If(c, a, b)
            t = t.arg(1) if w == 'a' else t.arg(2)
        return t

    def rename(self, v):
        if isinstance(v, PV):
            out = []
            for (g, o, bs, e, b) in v.alts:
                if not self.sat(g):
                    continue
                out.append((g, self.names.get(o, o if o in (None, '?') else '?'), bs, e, b))
            if len(out) == 1:
                out = [(True,) + out[0][1:]]
            return PV(out)
        return v

    def state(self):
        st = St()
        st.m.update(self.cells)
        return st


class RunEnv(StreamBase):
    kind = 'run'
    rename = None

    def objects(self, ex, st):
        nx, sh = self.nx, self.sh
        for e in nx.ev:
            if e[0] == 'A':
                ex.assume(e[1])
            elif e[0] == 'I':
                ex.assume(e[2])
        for i, r in nx.rng.items():
            ex.rng.setdefault(i, r)
        ex.keep.append(nx)
        ex.assume(sh.ok)
        self.start_setup(ex, st)
        for o, nm in sh.names.items():
            ex.objs[nm] = Obj(nm, nx.objs[o].size, 'stream' if nm == 'STRM' else 'sub', nx.objs[o].zero)
            st.m[('alloc', nm)] = sh.st.m.get(('alloc', o), False)
            st.m[('freed', nm)] = sh.st.m.get(('freed', o), False)
        for k, v in sh.cells.items():
            if k not in self.mutable:
                st.m[k] = v
        for k, ty in sorted(self.mutable.items(), key=str):
            if k[0] != 'c':
                continue
            nm = 'S.%s+%d' % (k[1], k[2])
            if k == ('c', 'STRM', 4):
                self.progress = z3.Int(nm)
                ex.setr(self.progress, -2 ** 31, 2 ** 31 - 1)
                st.m[k] = self.progress
            elif ty == 'double':
                st.m[k] = self.fcell(ex, nm)
            elif ty == 'ptr':
                v = sh.cells.get(k)
                if not isinstance(v, PV):
                    st.m[k] = PV([(True, '?', None, 0, 0)])
                    continue
                al = []
                for n, (g, o, bs, e, b) in enumerate(v.alts):
                    if len(v.alts) > 1:
                        g = z3.Bool('%s?%d' % (nm, n))
                    al.append((g, o, 0 if bs is None else bs, z3.Int('%s.e%d' % (nm, n)) if o not in (None, '?') else 0, 0))
                st.m[k] = PV(al)
            else:
                n = bits(ty)
                st.m[k] = z3.Bool(nm) if n == 1 else ex.fint(nm, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        if ('c', 'STRM', 4) not in self.mutable:
            self.progress = z3.Int('S.STRM+4')
            ex.setr(self.progress, -2 ** 31, 2 ** 31 - 1)
            st.m[('c', 'STRM', 4)] = self.progress
        ex.assume(z3.And(zi(cmp('>=', self.progress, sub(0, self.start))) if False else zb(cmp('>=', self.progress, sub(0, self.start)))))
        for inv in self.oinvs:
            f = inv.formula(ex, None, st, ex.R)
            if f is not None:
                ex.ev.append(('I', inv, zb(f)))

    def fcell(self, ex, nm):
        return TOP if ex.mode == 'safe' else FV(z3.Real(nm))

    def setup(self, ex, st):
        sp = self.spec
        self.objects(ex, st)
        size = z3.Int('size')
        ex.setr(size, 0, SIZEMAX)
        p = self.progress
        ex.assume(z3.And(size >= 0, zb(cmp('<=', add(add(p, self.start), size), SIZEMAX))))
        self.size = size
        ex.setr(p, -2 ** 31, SIZEMAX)
        n = z3.Int('nout')
        end = add(p, size)
        self.pos0 = z3.Int('pos0')
        ex.setr(self.pos0, 0, 2 ** 31)
        ex.assume(self.pos0 == z3.If(p > 0, p, 0))
        ex.assume(n == z3.If(end > 0, end, 0) - self.pos0)
        ex.setr(n, 0, 2 ** 31)
        self.nout = n
        ex.objs['INP'] = Obj('INP', 8 * sp.nin, 'ro')
        ex.objs['OUTP'] = Obj('OUTP', 8 * sp.nout, 'ro')
        for k in range(sp.nin):
            ex.objs['IN%d' % k] = Obj('IN%d' % k, mulc(size, 8), 'ro')
        for k in range(sp.nout):
            ex.objs['OUT%d' % k] = Obj('OUT%d' % k, mulc(n, 8), 'out')
        P = lambda o: PV([(True, o, None, 0, 0)])
        if len(ex.fn.params) != 4:
            raise Unsupported('signature of ' + ex.fn.name)
        for (t, nm), a in zip(ex.fn.params, [P('STRM'), size, P('INP'), P('OUTP')]):
            ex.R[nm] = a
        for k in range(sp.nout):
            st.m[('W', k)] = 0

    def init_cell(self, ex, key, ty):
        _, o, off = key
        if o == 'INP' and ty == 'ptr':
            return PV([(True, 'IN%d' % (off // 8), 0, 0, 0)])
        if o == 'OUTP' and ty == 'ptr':
            return PV([(True, 'OUT%d' % (off // 8), 0, 0, 0)])
        return None

    def extra_syms(self):
        return StreamBase.extra_syms(self) + [('sym', 'progress'), ('sym', 'pos0')]

    def sym(self, ex, n):
        if n == 'nout':
            return self.nout
        if n == 'progress':
            return self.progress
        if n == 'pos0':
            return self.pos0
        return StreamBase.sym(self, ex, n)

    on_access = BatchEnv.on_access
    _sure = BatchEnv._sure

    def post(self, ex):
        allocs = bool(ex.failflags)
        for (r, st, v) in ex.rets:
            ok = And(r, cmp('==', v, 0))
            ex.oblig('return-code', r, Or(cmp('==', v, 0), *([cmp('==', v, 2)] if allocs else [])), 'ret')
            for k in range(self.spec.nout):
                ex.oblig('all-outputs-written', ok, cmp('==', st.m.get(('W', k), 0), self.nout), 'ret')
            ex.oblig('progress-advances', ok, cmp('==', ex.coerce(st.m.get(('c', 'STRM', 4), ZERO), 'i32'), add(self.progress, self.size)), 'ret')
            ex.oblig('index-unchanged', r, cmp('==', ex.coerce(st.m.get(('c', 'STRM', 0), ZERO), 'i32'), ex.coerce(self.sh.cells.get(('c', 'STRM', 0), ZERO), 'i32')), 'ret')
            self.keep_objects(ex, r, st)
            for inv in self.oinvs:
                f = inv.formula(ex, None, st, ex.R)
                if f is None:
                    f = False
                ex.oblig('invariant-preserved', r, f, 'object', tag=inv)
        for (r, st, w) in ex.exc:
            ex.oblig('no-exception-escapes', r, False, w)
        for (g, on) in ex.failflags:
            for (r, st, v) in ex.rets:
                ex.oblig('oom-reported', And(r, g), cmp('==', v, 2), on)

    def keep_objects(self, ex, r, st):
        for on, ob in ex.objs.items():
            if ob.kind == 'heap':
                ex.oblig('no-leak', And(r, st.m.get(('alloc', on), False)), st.m.get(('freed', on), False), on)
            if ob.kind in ('stream', 'sub'):
                f0 = self.sh.st.m.get(('freed', self.rev(on)), False)
                ex.oblig('state-not-freed', And(r, Not(f0)), Not(st.m.get(('freed', on), False)), on)
        for k, ty in self.mutable.items():
            v = st.m.get(k)
            if ty == 'ptr' and k[0] == 'c' and isinstance(v, PV):
                v0 = self.sh.cells.get(k)
                objs = {a[1] for a in v0.alts} if isinstance(v0, PV) else set()
                for (g, o, bs, e, b) in v.alts:
                    if o not in objs or b != 0:
                        ex.oblig('pointer-stays-in-object', And(r, g), False, str(k))

    def rev(self, nm):
        for o, n in self.sh.names.items():
            if n == nm:
                return o


class FreeEnv(RunEnv):
    kind = 'free'

    def setup(self, ex, st):
        self.objects(ex, st)
        self.size = self.nout = 0
        if len(ex.fn.params) != 1:
            raise Unsupported('signature of ' + ex.fn.name)
        ex.R[ex.fn.params[0][1]] = PV([(True, 'STRM', None, 0, 0)])

    def init_cell(self, ex, key, ty):
        return None

    def post(self, ex):
        for (r, st, v) in ex.rets:
            for on, ob in ex.objs.items():
                if ob.kind in ('heap', 'stream', 'sub'):
                    ex.oblig('no-leak', And(r, st.m.get(('alloc', on), False)), st.m.get(('freed', on), False), on)
        for (r, st, w) in ex.exc:
            ex.oblig('no-exception-escapes', r, False, w)


class OInv:
    """an object invariant: the same relation on the object as seen by run
    (cells of STRM) and as left behind by new"""


# ---- concrete runs ----------------------------------------------------------
def concrete(lib, sp, mod, f, rng, case, hook=None, after=None, maxbars=60):
    """build a stream and feed it some chunks; calls after(objects, ctx)"""
    fnew, frun = f['new'], f['run']
    it = interp.Interp([mod] + list(lib.mods.values()))
    opts = option_samples(rng, sp, case)
    OPT = IObj('OPT', 8 * sp.nopt)
    OPT.m = {8 * k: o for k, o in enumerate(opts)}
    SOUT = IObj('SOUT', 8)
    start = it.call('ti_%s_start' % sp.name, [(OPT, 0)])
    ctx = {'start': start, 'iopts': [interp.toint(o) for o in opts]}
    ctx.update({'iopt%d' % k: interp.toint(o) for k, o in enumerate(opts)})
    it.objmap.update(OPT=OPT, SOUT=SOUT)
    if hook and hook.get('new'):
        hook['new'].ctx = ctx
        it.hook = hook['new'].hook(it)
    rv = it.run(mod, fnew, [(OPT, 0), (SOUT, 0)])
    it.hook = None
    if rv != 0:
        return False
    main = SOUT.m[0][0]
    byname = {o.name: o for o in it.objmap.values()}
    return it, main, ctx


def feed(lib, sp, mod, fn, it, main, names, ctx, rng, tracer=None, after=None, bars=40):
    fed = 0
    def bind():
        # names: heap object name in new -> STRM/SUB name
        for o, nm in names.items():
            if o in it.objmap:
                it.objmap[nm] = it.objmap[o]
        it.objmap['STRM'] = main
    bind()
    if after:
        after(it, ctx)
    total = rng.choice([3, 8, 20, 30, bars])
    data = make_inputs(rng, sp, total)
    while fed < total:
        m = min(total - fed, rng.choice([0, 1, 1, 2, 3, 5, 9, 14, 40]))
        p = main.m.get(4, 0)
        n = max(0, p + m) - max(0, p)
        INP, OUTP = IObj('INP', 8 * sp.nin, 'ro'), IObj('OUTP', 8 * sp.nout, 'ro')
        for k, s in enumerate(data):
            o = IObj('IN%d' % k, 8 * m, 'ro')
            o.m = {8 * j: x for j, x in enumerate(s[fed:fed + m])}
            INP.m[8 * k] = (o, 0)
            it.objmap[o.name] = o
        for k in range(sp.nout):
            o = IObj('OUT%d' % k, 8 * n, 'out')
            OUTP.m[8 * k] = (o, 0)
            it.objmap[o.name] = o
        c = dict(ctx, nout=n, progress=p, pos0=max(0, p))
        if tracer:
            tracer.ctx = c
            it.hook = tracer.hook(it)
        it.run(mod, fn, [(main, 0), m, (INP, 0), (OUTP, 0)])
        it.hook = None
        fed += m
        if after:
            after(it, ctx)
        if m == 0 and rng.random() < .5:
            continue


class SRes(verify.Result):
    pass


def merge(tot, r, label):
    tot.total += r.total; tot.done += r.done; tot.ninv += r.ninv
    tot.fails += r.fails
    tot.kinds = dict(getattr(tot, 'kinds', {}))
    for k, v in getattr(r, 'kinds', {}).items():
        tot.kinds[k] = tot.kinds.get(k, 0) + v
    tot.parts = getattr(tot, 'parts', {})
    tot.parts[label] = (r.total, r.done)


class StreamProof:
    def __init__(self, lib, name, nruns=14, timeout=3000, only=None, seed=1, case=None, verbose=False):
        self.lib, self.sp, self.name = lib, lib.spec(name), name
        self.nruns, self.timeout, self.only, self.seed, self.case, self.verbose = nruns, timeout, only, seed, case or {}, verbose
        self.f = {}
        self.mod = None
        for k, s in ARG.items():
            m, f = lib.find('ti_' + name + s)
            if f is None:
                raise Unsupported('ti_%s%s not found' % (name, s))
            self.f[k] = f
            self.mod = m
            f.parser.body(f)
        self.mods = verify.load_callees(lib, self.mod, self.f['new'])
        for k in ('run', 'free'):
            for m in verify.load_callees(lib, self.mod, self.f[k]):
                if m not in self.mods:
                    self.mods.append(m)

    # -- new --------------------------------------------------------------
    def mk_new(self, plan, invs=None, ranks=None):
        env = NewEnv(self.sp, self.mods, self.lib)
        env.case = self.case
        ex = Exec(self.mod, self.f['new'], env, 'safe', 'N.', plan, invs, mods=self.mods)
        ex.ranks = ranks or {}
        return ex

    def new(self):
        t = self.timeout
        plan, ex = verify.plan_loop(self.mk_new)
        invs, ranks = {}, {}
        if ex.cfg.headers:
            voc = verify.vocab_of(ex)
            tr = Tracer(self.f['new'], ex.cfg, {h: v for h, (v, s) in voc.items()})
            rng = random.Random(self.seed)
            for _ in range(self.nruns * 6):
                before = {h: len(r) for h, r in tr.rows.items()}
                try:
                    concrete(self.lib, self.sp, self.mod, self.f, rng, self.case, {'new': tr})
                except (interp.Trap, interp.CppThrow):
                    for h in tr.rows:
                        del tr.rows[h][before[h]:]
            invs, ranks = self.guess(ex, voc, tr)
            ex = self.mk_new(plan, invs, ranks)
            ex.run()
            keep = set(map(id, solve.houdini(ex, t)))
            for h in invs:
                invs[h] = [i for i in invs[h] if id(i) in keep]
            ranks = verify.pick_ranks(ex, invs, ranks, t)
        ex = self.mk_new(plan, invs, ranks)
        ex.run()
        ex.env.post(ex)
        self.nx = ex
        self.sh = ex.env.shape
        self.ninv_new = sum(map(len, invs.values()))
        return ex

    def guess(self, ex, voc, tr):
        invs, ranks = {}, {}
        for h in ex.cfg.headers:
            v, vary = voc[h]
            cols, vv, rows = verify.clean_rows(v, vary, tr.rows[h])
            invs[h] = infer.candidates(cols, [r for _, r in rows], vv, pairs=verify.loop_pairs(ex, h))
            if len(rows) < 3:
                invs[h] = infer.untraced(v, vary)
            invs[h] += [infer.NonNull(v[k]) for k in sorted(vary) if v[k][0] in ('q', 'mq')]
            ranks[h] = (verify.rank_candidates(cols, vv, rows) if len(rows) >= 3 else infer.untraced_ranks(v, vary)) or 'none'
            if self.verbose:
                print(h, len(rows), 'cands', len(invs[h]))
        return invs, ranks

    # -- run / free ----------------------------------------------------------
    def mk_obj(self, kind, plan, mutable, oinvs, invs=None, ranks=None, mode='safe', cls=None, prefix=''):
        env = (cls or (RunEnv if kind == 'run' else FreeEnv))(self.sp, self.mods, self.lib)
        env.case = self.case
        env.nx, env.sh, env.mutable, env.oinvs = self.nx, self.sh, mutable, oinvs
        ex = Exec(self.mod, self.f[kind], env, mode, prefix, plan, invs, mods=self.mods)
        ex.ranks = ranks or {}
        return ex

    def mutable_cells(self):
        """cells of the object that run may write, with their types"""
        mut = {('c', 'STRM', 4): 'i32'}
        for _ in range(6):
            plan, ex = verify.plan_loop(lambda p: self.mk_obj('run', p, mut, []))
            new = dict(mut)
            for s in ex.written.values():
                for k in s:
                    if len(k) > 1 and (k[1] == 'STRM' or str(k[1]).startswith('SUB:')) and k[0] in ('c', 'a'):
                        if k not in new or new[k] is None:
                            new[k] = ex.celltys.get(k) or self.typeof(ex, k)
            if new == mut:
                break
            mut = new
        self.run_types = {k: t for k, t in ex.celltys.items()}
        return plan, ex, mut

    def typeof(self, ex, k):
        v = self.sh.cells.get(k)
        if isinstance(v, FV):
            return 'double'
        if isinstance(v, PV):
            return 'ptr'
        return 'i32' if v is not None and v is not ZERO else 'double'

    def object_vocab(self, mut):
        v, vary = [('sym', 'start')] + [('sym', 'iopt%d' % k) for k in range(self.sp.nopt)], set()
        for k in sorted(set(self.run_types) | set(mut), key=str):
            if k[0] != 'c' or not (k[1] == 'STRM' or k[1].startswith('SUB:')):
                continue
            ty = mut.get(k) or self.run_types.get(k)
            if ty in ('i32', 'i64'):
                if k in mut:
                    vary.add(len(v))
                v.append(('m', k[1], k[2]))
            elif ty == 'ptr' and k in mut:
                vary.add(len(v))
                v.append(('mq', k[1], k[2]))
        return v, vary

    def trace(self, ex, hdr_voc, ovoc):
        tr = Tracer(self.f['run'], ex.cfg, {h: v for h, (v, s) in hdr_voc.items()})
        orow = []
        rng = random.Random(self.seed)
        ok = tries = 0
        t0 = time.process_time()
        names = {}
        def after(it, ctx):
            tr.ctx = ctx
            orow.append(tuple(tr.get(it, v, {}) for v in ovoc))
        while tries < self.nruns * 12 and time.process_time() - t0 < 14:
            if ok >= self.nruns and (ok >= 5 * self.nruns or time.process_time() - t0 > 5 or all(len(r) >= 12 for r in tr.rows.values())):
                break
            tries += 1
            before = {h: len(r) for h, r in tr.rows.items()}
            n0 = len(orow)
            try:
                c = concrete(self.lib, self.sp, self.mod, self.f, rng, self.case)
                if not c:
                    continue
                it, main, ctx = c
                feed(self.lib, self.sp, self.mod, self.f['run'], it, main, self.sh.names, ctx, rng, tr, after)
                ok += 1
            except (interp.Trap, interp.CppThrow):
                for h in tr.rows:
                    del tr.rows[h][before[h]:]
                del orow[n0:]
        return tr, orow

    def run(self):
        t = self.timeout
        plan, ex, mut = self.mutable_cells()
        self.mut = mut
        voc = verify.vocab_of(ex)
        ovoc, ovary = self.object_vocab(mut)
        tr, orow = self.trace(ex, voc, ovoc)
        good = [k for k in range(len(ovoc)) if orow and all(r[k] is not None for r in orow)]
        cols = [ovoc[k] for k in good]
        vv = {j for j, k in enumerate(good) if k in ovary}
        rows = [tuple(r[k] for k in good) for r in orow]
        oinvs = infer.candidates(cols, rows, vv) if rows else []
        oinvs = self.established(oinvs)
        invs, ranks = self.guess(ex, voc, tr) if ex.cfg.headers else ({}, {})
        ex = self.mk_obj('run', plan, mut, oinvs, invs, ranks)
        ex.run()
        ex.env.post(ex)
        keep = set(map(id, solve.houdini(ex, t)))
        for h in invs:
            invs[h] = [i for i in invs[h] if id(i) in keep]
        oinvs = [i for i in oinvs if id(i) in keep]
        if self.verbose:
            for i in oinvs:
                print('   object:', i)
            for h in invs:
                for i in invs[h]:
                    print('   ', h, i)
        ex = self.mk_obj('run', plan, mut, oinvs, invs, ranks)
        ex.run()
        ranks = verify.pick_ranks(ex, invs, ranks, t)
        ex = self.mk_obj('run', plan, mut, oinvs, invs, ranks)
        ex.run()
        ex.env.post(ex)
        self.rx, self.plan_run, self.oinvs, self.invs, self.ranks = ex, plan, oinvs, invs, ranks
        return ex

    def established(self, oinvs):
        """those that hold of the object new returns"""
        nx, sh = self.nx, self.sh
        s = z3.Solver()
        solve.limit(s, self.timeout)
        for e in nx.ev:
            if e[0] == 'A':
                s.add(e[1])
            elif e[0] == 'I':
                s.add(e[2])
        s.add(zb(sh.ok))
        st = sh.state()
        fs = []
        for inv in oinvs:
            f = self.inv_on_new(inv, st)
            if f is not None:
                fs.append((inv, zb(f)))
        while fs:
            s.push()
            s.add(z3.Not(z3.And(*[f for _, f in fs])))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            if r == z3.unsat:
                break
            if m is not None:
                q = [(i, f) for i, f in fs if not z3.is_false(m.eval(f, model_completion=True))]
                if len(q) < len(fs):
                    fs = q
                    continue
            q = []
            for i, f in fs:
                s.push()
                s.add(z3.Not(f))
                if s.check() == z3.unsat:
                    q.append((i, f))
                s.pop()
            fs = q
            break
        self.nest = len(fs)
        return [i for i, f in fs]

    def inv_on_new(self, inv, st):
        nx = self.nx
        class E:
            pass
        e = E()
        e.env, e.initial, e.objs = nx.env, {}, {'STRM': 1}
        e.objs.update({n: 1 for n in self.sh.names.values()})
        e.init_cell = lambda k, ty: nx.fint(nx.fresh_name('uninit'), -2 ** 31, 2 ** 31 - 1) if not self.sh.zero.get(k[1]) else 0
        for a in ('iopts', 'axioms_seen', 'assume', 'setr'):
            setattr(e, a, getattr(nx, a, None))
        if e.iopts is None:
            e.iopts = nx.__dict__.setdefault('iopts', {})
        n0 = len(nx.ev)
        f = inv.formula(e, None, st, {})
        # option axioms asked for on the way belong to new
        return f

    def free(self):
        plan, ex = verify.plan_loop(lambda p: self.mk_obj('free', p, self.mut, self.oinvs))
        if ex.cfg.headers:
            raise Unsupported('loops in free')
        ex.env.post(ex)
        return ex

    def prove(self, parts=('new', 'run', 'free')):
        t0 = time.time()
        res = verify.Result('ti_%s_stream' % self.name)
        res.vacuous = False
        try:
            if True:
                ex = self.new()
                if 'new' in parts:
                    self.judge(res, ex, 'new', self.ninv_new)
                if self.sh.main is None or not self.sh.possible:
                    if not res.fails:
                        res.undecided = 'shape of the stream object not understood' if self.sh.possible else 'new never succeeds'
                    return res
            ex = self.run()
            if 'run' in parts:
                self.judge(res, ex, 'run', sum(map(len, self.invs.values())) + len(self.oinvs), self.nest)
            if 'free' in parts:
                self.judge(res, self.free(), 'free', 0)
        except (Unsupported, ir.IRError) as e:
            res.undecided = '%s: %s' % (type(e).__name__, e)
        res.time = time.time() - t0
        return res

    def judge(self, res, ex, label, ninv, extra=0):
        r = verify.Result(label)
        r.total, r.done, r.fails, s = solve.discharge(ex, self.timeout, only=self.only)
        r.total += extra
        r.done += extra
        r.ninv = ninv
        r.kinds = verify.kinds_of(ex, self.only)
        if verify.vacuous(ex, s, self.timeout):
            res.vacuous = True
        merge(res, r, label)


def prove_stream(lib, name, parts=('new', 'run', 'free'), **kw):
    try:
        t0 = time.time()
        r = StreamProof(lib, name, **kw).prove(parts)
        if r.fails and not r.undecided and r.time < 40:
            sp = lib.spec(name)
            def mk(case):
                q = StreamProof(lib, name, case=case, **kw).prove(parts)
                q.ex = None
                return q
            q = verify.split_cases(mk, r.fname, {}, verify.int_options(None, sp)[:4], 2)
            if q is not None:
                q.time = time.time() - t0
                return q
    except (Unsupported, ir.IRError) as e:
        r = verify.Result(name)
        r.undecided = '%s: %s' % (type(e).__name__, e)
        r.vacuous = False
        return r
    return r
