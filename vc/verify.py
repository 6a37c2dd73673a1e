"""Verification of one function against its contract."""
import random, time, z3, sys
import ir, interp, infer, solve
from terms import *
from execu import *
from batch import BatchEnv
from traces import Tracer, make_inputs, option_samples
from interp import Obj as IObj


class Result:
    def __init__(self, fname):
        self.fname = fname
        self.total = self.done = 0
        self.fails = []
        self.undecided = None
        self.time = 0.0
        self.ninv = 0


def plan_loop(mk, maxit=8):
    """run the generator until points-to sets / modified sets are stable"""
    plan = Plan()
    for _ in range(maxit):
        ex = mk(plan)
        ex.replan = False
        n0 = snapshot(plan)
        ex.run()
        if snapshot(plan) == n0:
            return plan, ex
    raise Unsupported('no fixpoint of the pointer analysis')


def snapshot(plan):
    return (sum(len(v) for v in plan.ptr.values()), sum(len(v) for v in plan.mods.values()),
            sum(len(v) for v in plan.regions.values()), len(plan.structs), len(plan.__dict__.get('celltys', {})), len(plan.ptr), len(plan.mods))


def vocab_of(ex):
    """per header: vocabulary and which entries vary"""
    cfg, fn = ex.cfg, ex.fn
    defs = {}
    for b in cfg.rpo:
        for i in fn.blocks[b].instrs:
            if i.res is not None:
                defs[i.res] = (b, i)
    pcmp = set()
    for b in cfg.rpo:
        for i in fn.blocks[b].instrs:
            if i.op == 'icmp' and i.x[1] == 'ptr':
                pcmp |= {a[1] for a in i.args if a[0] == 'r'}
    voc = {}
    for h in cfg.headers:
        v, vary = [], set()
        for t, n in fn.params:
            if t in ('i32', 'i64'):
                v.append(('p', n))
        v += [('sym', 'start'), ('sym', 'nout')] + ex.env.extra_syms()
        for r, (b, i) in defs.items():
            if i.op == 'phi' and b == h:
                continue
            if not cfg.dominates(b, h) or b == h:
                continue
            if i.ty in ('i32', 'i64') and i.op not in ('ptrtoint',):
                # sext/zext duplicates are uninteresting
                if i.op in ('sext', 'zext') and i.x != 'i1':
                    continue
                v.append(('p', r))
            elif i.ty == 'ptr' and (i.op == 'phi' or r in pcmp):
                v.append(('q', r))
        for i in ex.phis(h):
            if i.ty in ('i32', 'i64'):
                vary.add(len(v)); v.append(('p', i.res))
            elif i.ty == 'ptr':
                vary.add(len(v)); v.append(('q', i.res))
            elif i.ty == 'double' and i.res in ex.int_doubles():
                vary.add(len(v)); v.append(('p', i.res))
        mods = ex.plan.mods.get(h, ())
        cells = set(k for k in ex.celltys if k[0] == 'c')
        for k in sorted(set(list(mods) + list(cells)), key=str):
            if k[0] == 'c':
                ty = ex.celltys.get(k)
                if k[1] in ('INP', 'OPT', 'OUTP') or k[1].startswith('G:'):
                    continue
                if ty in ('i32', 'i64'):
                    if k in mods:
                        vary.add(len(v))
                    v.append(('m', k[1], k[2]))
                elif ty == 'ptr':
                    if k in mods:
                        vary.add(len(v))
                    v.append(('mq', k[1], k[2]))
            elif k[0] == 'W':
                vary.add(len(v)); v.append(k)
        voc[h] = (v, vary)
    return voc


def batch_traces(lib, mod, fn, sp, ex, voc, nruns=14, seed=1, case=None):
    rng = random.Random(seed)
    tr = Tracer(fn, ex.cfg, {h: v for h, (v, s) in voc.items()})
    ok = 0
    tries = 0
    t0 = time.process_time()
    while tries < nruns * 12 and time.process_time() - t0 < 12:
        if ok >= nruns and (ok >= 5 * nruns or time.process_time() - t0 > 4 or all(len(r) >= 12 for r in tr.rows.values())):
            break
        tries += 1
        it = interp.Interp([mod] + [m for m in lib.mods.values()])
        it.lib = lib
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 26, 31])
        if tries > nruns * 4:
            n = rng.choice([40, 60])
        opts = option_samples(rng, sp, case)
        ins = make_inputs(rng, sp, n)
        OPT = IObj('OPT', 8 * sp.nopt)
        OPT.m = {8 * k: o for k, o in enumerate(opts)}
        INP = IObj('INP', 8 * sp.nin)
        OUTP = IObj('OUTP', 8 * sp.nout)
        for k, s in enumerate(ins):
            o = IObj('IN%d' % k, 8 * n, 'ro')
            o.m = {8 * j: x for j, x in enumerate(s)}
            INP.m[8 * k] = (o, 0)
            it.objmap['IN%d' % k] = o
        try:
            start = it.call('ti_%s_start' % sp.name, [(OPT, 0)])
        except (interp.Trap, interp.CppThrow):
            continue
        nout = max(0, n - start)
        for k in range(sp.nout):
            o = IObj('OUT%d' % k, 8 * nout, 'out')
            OUTP.m[8 * k] = (o, 0)
            it.objmap['OUT%d' % k] = o
        it.objmap.update(OPT=OPT, INP=INP, OUTP=OUTP)
        tr.ctx = {'start': start, 'nout': nout}
        it.hook = tr.hook(it)
        before = {h: len(r) for h, r in tr.rows.items()}
        try:
            rv = it.run(mod, fn, [n, (INP, 0), (OPT, 0), (OUTP, 0)])
        except (interp.Trap, interp.CppThrow) as e:
            for h in tr.rows:
                del tr.rows[h][before[h]:]
            continue
        except ir.IRError as e:
            # missing callee module: load and retry
            raise
        if any(len(r) > before[h] for h, r in tr.rows.items()):
            ok += 1
        elif rv == 1:
            pass
    return tr


def load_callees(lib, mod, fn, seen=None):
    """modules that define indicator functions called from fn"""
    mods = [mod]
    seen = set()
    work = [(mod, fn)]
    while work:
        m, f = work.pop()
        f.parser.body(f)
        for b in f.blocks.values():
            for i in b.instrs:
                if i.op in ('call', 'invoke'):
                    c = i.x['callee'][1:]
                    if c in seen:
                        continue
                    seen.add(c)
                    if c in m.funcs:
                        work.append((m, m.funcs[c]))
                    elif c.startswith('ti_'):
                        m2, f2 = lib.find(c)
                        if f2 is not None:
                            if m2 not in mods:
                                mods.append(m2)
                            work.append((m2, f2))
    return mods


def clean_rows(vocab, vary, rows):
    """drop vocabulary items that are undefined in too many rows"""
    n = len(vocab)
    good = [k for k in range(n) if rows and sum(1 for _, r in rows if r[k] is None) == 0]
    # items sometimes undefined: keep only rows where all are defined if most
    cols = [vocab[k] for k in good]
    rr = [(b, tuple(r[k] for k in good)) for b, r in rows]
    vv = {j for j, k in enumerate(good) if k in vary}
    return cols, vv, rr


def loop_pairs(ex, h):
    """pairs of integer vocabulary items compared inside the loop"""
    src = {}
    for b in ex.cfg.rpo:
        for i in ex.fn.blocks[b].instrs:
            if i.res is not None and i.op in ('sext', 'zext'):
                src[i.res] = i.args[0]
    out = []
    for b in ex.cfg.loop[h]:
        for i in ex.fn.blocks[b].instrs:
            if i.op == 'icmp' and i.x[1] != 'ptr':
                a = []
                for v in i.args:
                    while v[0] == 'r' and v[1] in src:
                        v = src[v[1]]
                    a.append(v)
                if a[0][0] == 'r' and a[1][0] == 'r':
                    out.append((('p', a[0][1]), ('p', a[1][1])))
    return list(dict.fromkeys(out))


def rank_candidates(cols, vary, rows):
    """linear expressions that strictly decrease on every traced iteration"""
    steps = []
    prev = None
    for back, r in rows:
        if back and prev is not None:
            steps.append((prev, r))
        prev = r
    out = []
    n = len(cols)
    lo = {}
    def test(cs, strict=True):
        f = lambda r: sum(k * r[i] for i, k in cs)
        if all(f(a) > f(b) for a, b in steps):
            m = min((f(a) for a, b in steps), default=0)
            return m
        return None
    cands = []
    for x in sorted(vary):
        for s in (1, -1):
            for y in [None] + list(range(n)):
                if y == x:
                    continue
                cs = [(x, s)] + ([(y, -s)] if y is not None else [])
                m = test(cs)
                if m is not None and abs(m) <= 5:
                    cands.append((abs(m), len(cs), y in vary if y is not None else False, cs, m))
    cands.sort(key=lambda t: (t[2], t[0], t[1]))
    seen = set()
    for _, _, _, cs, m in cands:
        key = tuple(sorted(cs))
        if key in seen:
            continue
        seen.add(key)
        for c in sorted({-m, max(0, -m) , 1}):
            out.append(([(cols[i], k) for i, k in cs], c))
        if len(out) > 24:
            break
    return out


def int_options(fn, sp):
    """options that are converted to an integer somewhere"""
    return [k for k, nm in enumerate(sp.optnames) if 'period' in str(nm)]


CASES = [(-OPTBOUND, 0), (1, 1), (2, 2), (3, OPTBOUND)]


def verify_batch(lib, fname, sp, nruns=14, timeout=3000, verbose=False, only=None, seed=1):
    """prove the contract of one function; where the plain proof does not go
    through, by cases on the integer parts of the period options"""
    t0 = time.time()
    r = verify_one(lib, fname, sp, nruns, timeout, verbose, only=only, seed=seed)
    if r.undecided or not r.fails or r.time > 25:
        return r
    mk = lambda case: verify_one(lib, fname, sp, nruns, timeout, verbose, case, only=only, seed=seed)
    q = split_cases(mk, fname, {}, int_options(r.ex.fn, sp)[:4], 2)
    if q is not None:
        q.time = time.time() - t0
        return q
    r.time = time.time() - t0
    return r


def split_cases(mk, fname, case, ks, depth):
    if depth == 0:
        return None
    best = None
    for k in ks:
        if k in case:
            continue
        rs = []
        for cs in CASES:
            c = dict(case)
            c[k] = cs
            rs.append((c, mk(c)))
        bad = sum(1 for c, r in rs if r.fails or r.undecided)
        if best is None or bad < best[0]:
            best = (bad, rs)
        if bad == 0:
            break
    if best is None:
        return None
    tot = Result(fname)
    for c, r in best[1]:
        if r.fails or r.undecided:
            r = split_cases(mk, fname, c, ks, depth - 1)
            if r is None:
                return None
        tot.total += r.total; tot.done += r.done; tot.ninv += r.ninv
        tot.ex = getattr(r, 'ex', None)
        tot.vacuous = getattr(tot, 'vacuous', True) and r.vacuous
        tot.kinds = dict(getattr(tot, 'kinds', {}))
        for k, v in r.kinds.items():
            tot.kinds[k] = tot.kinds.get(k, 0) + v
        tot.ncases = getattr(tot, 'ncases', 0) + getattr(r, 'ncases', 1)
    return tot


def verify_one(lib, fname, sp, nruns=14, timeout=3000, verbose=False, case=None, only=None, seed=1, maker=None, post=None):
    t0 = time.time()
    res = Result(fname)
    mod, fn = lib.find(fname)
    if fn is None:
        res.undecided = 'function not found'
        return res
    try:
        mods = load_callees(lib, mod, fn)
        mk = lambda plan, invs=None, ranks=None: (maker or _mk)(lib, mods, mod, fn, sp, plan, invs, ranks, case)
        plan, ex = plan_loop(mk)
        invs, ranks = {}, {}
        if ex.cfg.headers:
            voc = vocab_of(ex)
            tr = batch_traces(lib, mod, fn, sp, ex, voc, nruns, seed=seed, case=case)
            for h in ex.cfg.headers:
                v, vary = voc[h]
                cols, vv, rows = clean_rows(v, vary, tr.rows[h])
                invs[h] = infer.candidates(cols, [r for _, r in rows], vv, pairs=loop_pairs(ex, h))
                if len(rows) < 3:
                    invs[h] = infer.untraced(v, vary)
                    cols, vv = v, vary
                invs[h] += [infer.NonNull(v[k]) for k in sorted(vary) if v[k][0] in ('q', 'mq')]
                ranks[h] = (rank_candidates(cols, vv, rows) if len(rows) >= 3 else infer.untraced_ranks(v, vary)) or 'none'
                if verbose:
                    print(h, len(rows), 'cands', len(invs[h]))
            # exactly-false rows mean unreachable loop; keep no candidates
            ex = mk(plan, invs, ranks)
            ex.run()
            keep = set(map(id, solve.houdini(ex, timeout)))
            for h in invs:
                invs[h] = [i for i in invs[h] if id(i) in keep]
                if verbose:
                    for i in invs[h]:
                        print('   ', h, i)
            ranks = pick_ranks(ex, invs, ranks, timeout) if maker is None else {}
        ex = mk(plan, invs, ranks)
        ex.run()
        post(ex) if post else ex.env.post(ex)
        res.ninv = sum(map(len, invs.values()))
        res.total, res.done, res.fails, s = solve.discharge(ex, timeout, only=only)
        res.ex = ex
        res.vacuous = vacuous(ex, s, timeout)
        res.kinds = kinds_of(ex, only)
    except (Unsupported, ir.IRError) as e:
        res.undecided = '%s: %s' % (type(e).__name__, e)
    res.time = time.time() - t0
    return res


def vacuous(ex, s, timeout):
    """the assumptions must leave the successful return reachable"""
    solve.limit(s, min(timeout, 2000))
    for (r, st, v) in ex.rets:
        s.push()
        s.add(zb(r))
        q = s.check()
        s.pop()
        if q != z3.unsat:
            return False
    return True


def kinds_of(ex, only):
    d = {}
    for e in ex.ev:
        if e[0] == 'O' or (e[0] not in 'AI'):
            o = e[1]
            if only is None or only(o):
                d[o.kind] = d.get(o.kind, 0) + 1
    return d


def pick_ranks(ex, invs, ranks, timeout):
    """choose, per loop, one ranking expression that the solver accepts"""
    out = {}
    s = z3.Solver()
    solve.limit(s, timeout)
    keep = {id(i) for l in invs.values() for i in l}
    for e in ex.ev:
        if e[0] == 'A':
            s.add(e[1])
        elif e[0] == 'I' and id(e[1]) in keep:
            s.add(e[2])
    from infer import vget, NA
    for h, rk in ranks.items():
        if rk == 'none':
            out[h] = 'none'
            continue
        for cs, c in rk:
            ok = True
            for cond, st, vals, src in ex.latch.get(h, ()):
                Rh = ex.R
                Rl = dict(ex.R)
                Rl.update(vals)
                try:
                    d0, d1 = c, c
                    for v, k in cs:
                        d0 = add(d0, mulc(vget(ex, v, ex.hst[h], Rh), k))
                        d1 = add(d1, mulc(vget(ex, v, st, Rl), k))
                except NA:
                    ok = False
                    break
                s.push()
                s.add(zb(cond))
                s.add(z3.Not(zb(And(cmp('>', d0, d1), cmp('>=', d0, 0)))))
                r = s.check()
                s.pop()
                solve.STATS['queries'] += 1
                if r != z3.unsat:
                    ok = False
                    break
            if ok:
                out[h] = [(cs, c)]
                break
        else:
            out[h] = rk[:1] if ex.latch.get(h) else []
    return out


def _mk(lib, mods, mod, fn, sp, plan, invs, ranks, case=None, busy=False):
    env = BatchEnv(sp, mods, lib)
    env.busy = busy
    env.case = case or {}
    ex = Exec(mod, fn, env, 'safe', '', plan, invs, mods=mods)
    ex.ranks = ranks or {}
    return ex
