"""One verification job = one function under contract for one property.

prove -> (on failure) stronger retry -> search for a concrete failing input.
The functions listed in baseline.json as not proved on the unchanged tree get
the bounded search instead, always labelled bounded."""
import os, time, json, traceback, z3
import solve, verify, native, search, oracle, ir, lib as libm, stream, accept, frame, registry, rings, ranges, causal
from execu import Unsupported
from interp import Trap

P02 = {'output-prefix-order', 'all-outputs-written', 'rejected-writes-nothing', 'return-code', 'output-read-after-write', 'termination', 'assertion', 'unreachable-code'}
P11 = {'no-leak', 'no-exception-escapes', 'oom-reported', 'double-free', 'free-at-base', 'use-after-free', 'free of unknown pointer',
       'free of non-heap object', 'std::terminate'}


# progress and output counts of a stream; everything else about it is P12
P05 = {'progress-advances', 'all-outputs-written', 'initial-progress', 'return-code', 'index-unchanged', 'stream-index', 'termination'}


def only_for(prop):
    if prop == 'P05':
        return lambda o: o.kind in P05 or o.kind.startswith('invariant-')
    if prop == 'P12':
        return lambda o: o.kind not in P05 or o.kind == 'termination'
    if prop == 'P02':
        return lambda o: o.kind in P02 or o.kind.startswith('invariant-')
    if prop == 'P11':
        return lambda o: o.kind in P11 or o.kind.startswith('invariant-')
    if prop == 'P01':
        return lambda o: o.kind in ('assertion', 'unreachable-code') or o.kind not in P02 and o.kind not in P11
    return None


def hints_of(fails, nopt):
    """sizes and option values from the verifier's counterexamples"""
    out = []
    for o, m in fails:
        if m is None:
            continue
        sz, op = None, {}
        for d in m.decls():
            n = d.name()
            try:
                if n == 'size':
                    sz = m[d].as_long()
                elif n[1:4] == 'opt' and n[4:].isdigit():
                    op[int(n[4:])] = float(m[d].as_long() * (2 if n[0] == 'h' else 1))
                elif n.startswith('opt') and n[3:].isdigit():
                    v = m[d]
                    if z3.is_algebraic_value(v):
                        v = v.approx(9)
                    op[int(n[3:])] = float(v.as_fraction())
            except (AttributeError, z3.Z3Exception):
                pass
        op = {k: v for k, v in op.items() if abs(v) < 1e6}
        h = (sz, op)
        if h not in out:
            out.append(h)
    return out[:30]


def describe(o, m, text=''):
    return {'obligation': o.kind, 'at': ' '.join(str(o.where).split())[:200], 'solver': o.status,
            'counterexample': {d.name(): str(m[d])[:60] for d in sorted(m.decls(), key=lambda d: d.name())
                               if d.arity() == 0 and (d.name() in ('size', 'start', 'nout', 'progress') or d.name().startswith(('opt', 'iopt')))} if m is not None else None}


class Ctx:
    def __init__(self, lib, tier, seed, bounded):
        self.lib, self.tier, self.seed, self.bounded = lib, tier, seed, bounded
        self.nat = native.Native(lib)
        self.thorough = tier == 'thorough'


def run_search(ctx, name, specs, hints=(), scale=1.0):
    """specs: [(kind, oracle name, kwargs)] or a function of the context"""
    n = 0
    if callable(specs):
        r, n = specs(ctx)
        return r, n
    for kind, orc, kw in specs:
        kw = dict(kw)
        kw.setdefault('budget', 6.0)
        kw.setdefault('ncases', 1500)
        kw['budget'] *= scale
        kw['ncases'] = int(kw['ncases'] * scale)
        if orc in oracle.ORACLES:
            r, k = oracle.values(ctx.nat, name, kind, orc, seed=ctx.seed, hints=hints, **kw)
        else:
            r, k = search.search(ctx.nat, name, kind, getattr(search, orc), seed=ctx.seed, hints=hints, **kw)
        n += k
        if r is not None:
            c, why = r
            return dict(c, oracle=orc, why=why), n
    return None, n


def run_job(ctx, job):
    t0 = time.time()
    name, label = job['name'], job['label']
    res = dict(label=label, name=name, status=None, obligations=0, discharged=0, fails=[], searched=0, kinds={}, inv=0, cases=1, note='')
    base = ctx.bounded.get(label)
    c0 = oracle.COMPARED[0]
    try:
        r = None
        if job['prove'] is None:
            res['status'], res['note'] = 'bounded', 'no contract: ' + str(base or 'concrete bars only')
        elif base is None or ctx.thorough:
            for attempt in range(2):
                solve.STATS['slow'] = 0
                try:
                    r = job['prove'](ctx, attempt)
                except (Unsupported, ir.IRError, Trap, libm.BuildError) as e:
                    r = verify.Result(label)
                    r.undecided = '%s: %s' % (type(e).__name__, e)
                except RecursionError as e:
                    r = verify.Result(label)
                    r.undecided = 'RecursionError'
                except Exception as e:
                    r = verify.Result(label)
                    r.undecided = 'engine: %s' % traceback.format_exc()[-300:]
                if not r.undecided and not r.fails and r.total and not r.vacuous:
                    break
                if base is not None:
                    break
            res['market'] = bool(getattr(r, 'market', False))
            res.update(obligations=r.total, discharged=r.done, inv=r.ninv, kinds=getattr(r, 'kinds', {}), cases=getattr(r, 'ncases', 1))
            if r.undecided:
                res['status'], res['note'] = 'undecided', str(r.undecided)[:300]
            elif r.fails and solve.STATS['slow']:
                res['status'], res['note'] = 'undecided', 'solver time limit (%d queries)' % solve.STATS['slow']
            elif r.fails:
                res['status'] = 'failed'
                res['fails'] = [describe(o, m) for o, m in r.fails[:12]]
                res['note'] = ', '.join(sorted({o.kind for o, m in r.fails}))
            elif not r.total or r.vacuous:
                res['status'], res['note'] = 'undecided', 'vacuous: %d obligations' % r.total
            else:
                res['status'] = 'proved'
        else:
            res['status'], res['note'] = 'bounded', base
        if res['status'] != 'proved':
            hints = hints_of(r.fails, 0) if r is not None and r.fails else []
            scale = 1.0 if base is not None and not ctx.thorough else 3.0
            bad, n = run_search(ctx, name, job['search'], hints, scale) if job.get('search') else (None, 0)
            res['searched'] = n
            if bad:
                res['case'] = bad
        elif (ctx.thorough or job.get('always')) and job.get('search'):
            bad, n = run_search(ctx, name, job['search'], (), 1.0 if not ctx.thorough else 3.0)
            res['searched'] = n
            if bad:
                res['case'] = bad
    except Exception as e:
        res['status'] = res['status'] or 'error'
        res['note'] += ' | ' + traceback.format_exc()[-400:]
        res['error'] = True
    res['compared'] = oracle.COMPARED[0] - c0
    res['time'] = time.time() - t0
    return res


# ---- property definitions -----------------------------------------------------
def batch_fns(lib):
    for n in sorted(lib.specs):
        yield n, 'ti_' + n, 'batch'
        if 'ref' in lib.specs[n].features:
            yield n, 'ti_%s_ref' % n, 'ref'


def contract_jobs(prop, oracle, lib, **kw):
    only = only_for(prop)
    out = []
    for n, fn, kind in batch_fns(lib):
        def prove(ctx, attempt, fn=fn, n=n):
            return verify.verify_batch(ctx.lib, fn, ctx.lib.spec(n), nruns=14 if attempt == 0 else 40,
                                       timeout=(3000 if attempt == 0 else 8000) * (3 if ctx.thorough else 1), only=only, seed=1 + attempt)
        out.append(dict(name=n, label=fn, prove=prove, search=[(kind, oracle, kw)]))
    return out


def stream_jobs(prop, oracles, lib):
    only = only_for(prop)
    out = []
    for n in sorted(lib.specs):
        if 'stream' not in lib.specs[n].features:
            continue

        def prove(ctx, attempt, n=n):
            return stream.prove_stream(ctx.lib, n, nruns=14 if attempt == 0 else 30,
                                       timeout=(3000 if attempt == 0 else 8000) * (3 if ctx.thorough else 1), only=only, seed=1 + attempt)
        out.append(dict(name=n, label='ti_%s_stream' % n, prove=prove, search=oracles, always=prop == 'P05'))
    return out


def accept_jobs(lib):
    out = []
    for n in sorted(lib.specs):
        def prove(ctx, attempt, n=n):
            return accept.prove_accept(ctx.lib, n, 5000 if attempt == 0 else 15000)
        out.append(dict(name=n, label='ti_' + n, prove=prove, search=[('batch', 'accept_agrees', dict(edge=True))]))
    return out


def frame_jobs(lib):
    out = []
    for stem in lib.sources():
        out.append(dict(name=stem, label='unit ' + stem, prove=lambda ctx, attempt, stem=stem: frame.prove_module(ctx.lib, stem), search=[]))
    for stem in ('buffer', 'indicators_index'):
        path = {'buffer': 'utils/buffer.c'}.get(stem, stem + '.c')
        out.append(dict(name=stem, label='unit ' + stem, search=[],
                        prove=lambda ctx, attempt, stem=stem, path=path: frame.prove_module(ctx.lib, stem, os.path.join(ctx.lib.src, path))))
    for n, fn, kind in batch_fns(lib):
        out.append(dict(name=n, label=fn, prove=lambda ctx, attempt, n=n, fn=fn: frame.prove_batch(ctx.lib, fn, ctx.lib.spec(n)),
                        search=[(kind, 'independent', dict(budget=1.5, ncases=500))], always=True))
    for n in sorted(lib.specs):
        if 'stream' in lib.specs[n].features:
            out.append(dict(name=n, label='ti_%s_stream' % n, prove=lambda ctx, attempt, n=n: frame.prove_stream(ctx.lib, n),
                            search=[('stream', 'independent', dict(budget=1.5, ncases=500))], always=True))
    return out


def registry_jobs(lib):
    conc = lambda ctx: registry.concrete(ctx.lib, ctx.seed)
    out = [dict(name='index', label='ti_indicators', prove=lambda ctx, attempt: registry.prove_table(ctx.lib), search=lambda ctx: registry.table_case(ctx.lib)),
           dict(name='index', label='ti_find_indicator', prove=lambda ctx, attempt: registry.prove_find(ctx.lib), search=conc, always=True)]
    for f in ('ti_stream_run', 'ti_stream_free', 'ti_stream_get_info', 'ti_stream_get_progress'):
        out.append(dict(name='index', label=f, prove=lambda ctx, attempt, f=f: registry.prove_dispatch(ctx.lib, f), search=conc))
    for n in sorted(lib.specs):
        if 'stream' in lib.specs[n].features:
            out.append(dict(name=n, label='ti_%s_stream' % n, prove=lambda ctx, attempt, n=n: registry.prove_index(ctx.lib, n),
                            search=[('stream', 'index_stream', dict(budget=1.5, ncases=200))]))
    return out


def ring_jobs(lib):
    out = []
    for N, op in rings.functions():
        out.append(dict(name='rings', label='ringbuf<%d>::%s' % (N, op), prove=lambda ctx, attempt, N=N, op=op: rings.prove(ctx.lib, N, op),
                        search=lambda ctx, N=N, op=op: rings.concrete(ctx.lib, N, op)))
    for op in rings.BUFOPS:
        out.append(dict(name='rings', label='ti_buffer_' + op, prove=lambda ctx, attempt, op=op: rings.prove(ctx.lib, 0, op, 'tibuf_' + op, rings.BufEnv),
                        search=lambda ctx, op=op: rings.concrete(ctx.lib, -1, op)))
    return out


def value_jobs(orc, kinds, lib, names=None):
    """value properties: definitions on concrete bars (bounded) where no proof is available"""
    out = []
    for kind in kinds:
        if kind == 'stream':
            fns = [(n, 'ti_%s_stream' % n, 'stream') for n in sorted(lib.specs) if 'stream' in lib.specs[n].features]
        else:
            fns = [f for f in batch_fns(lib) if f[2] == kind]
        for n, fn, k in fns:
            if names is not None and n not in names:
                continue
            out.append(dict(name=n, label=fn, prove=None, search=[(k, orc, dict(budget=2.5, ncases=800))] + ([(k, 'causal_batch', dict(budget=1.2, ncases=300))] if orc == 'causal' else []), always=True))
    return out


def prove_definition(lib, fn, n, attempt):
    import value
    r = value.prove(lib, fn, lib.spec(n), timeout=3000 if attempt == 0 else 6000, seed=1 + attempt)
    if r.fails and not r.undecided:
        sat = [f for f in r.fails if f[1] is not None]
        if r.unmatched:
            r.undecided = 'loop state not expressed by the definition: %s' % ', '.join('.'.join(map(str, q)) for h, q in r.unmatched)[:200]
        elif not sat:
            r.undecided = 'solver gives no answer: %s' % ', '.join(sorted({o.kind for o, m in r.fails}))
        else:
            r.fails = sat
    return r


def same_values_jobs(lib):
    """the whole series fed to a new stream, and the batch function, both give the values of the definition"""
    out = []
    for j in value_jobs('stream_spec', ('stream',), lib):
        def prove(ctx, attempt, n=j['name']):
            r = prove_definition(ctx.lib, 'ti_%s_once' % n, n, attempt)
            if r.undecided or r.fails or r.vacuous or not r.total:
                return r
            b = prove_definition(ctx.lib, 'ti_' + n, n, attempt)
            b.total, b.done, b.ninv = b.total + r.total, b.done + r.done, b.ninv + r.ninv
            b.kinds = {k: b.kinds.get(k, 0) + r.kinds.get(k, 0) for k in {**b.kinds, **r.kinds}}
            b.market = getattr(b, 'market', False) or getattr(r, 'market', False)
            return b
        out.append(dict(j, prove=prove))
    return out


def range_jobs(lib):
    """the function writes the values of its definition, and the range follows from the definition"""
    import lemma
    out = []
    for j in value_jobs('ranges', ('batch', 'ref', 'stream'), lib, ranges.R):
        fn = 'ti_%s_once' % j['name'] if j['label'].endswith('_stream') and j['label'] != 'ti_' + j['name'] else j['label']

        def prove(ctx, attempt, n=j['name'], fn=fn):
            k, bad = lemma.prove(ctx.lib, n)
            if bad:
                r = verify.Result(fn)
                r.undecided = 'not derived from the definition: ' + ', '.join(bad)
                return r
            r = prove_definition(ctx.lib, fn, n, attempt)
            if not r.undecided and r.total:
                r.total, r.done = r.total + k, r.done + k
                r.kinds = dict(r.kinds, **{'range-lemma': k})
            return r
        out.append(dict(j, prove=prove))
    return out


def definition_jobs(lib):
    out = []
    for n, fn, kind in batch_fns(lib):
        def prove(ctx, attempt, fn=fn, n=n):
            return prove_definition(ctx.lib, fn, n, attempt)
        out.append(dict(name=n, label=fn, prove=prove, search=[(kind, 'spec_batch', dict(budget=2.5, ncases=800))], always=True))
    return out


def causal_jobs(lib):
    out = []
    for n, fn, kind in batch_fns(lib):
        def prove(ctx, attempt, fn=fn, n=n):
            return causal.prove(ctx.lib, fn, ctx.lib.spec(n), nruns=14 if attempt == 0 else 30, timeout=3000 if attempt == 0 else 8000, seed=1 + attempt)
        out.append(dict(name=n, label=fn, prove=prove, search=[(kind, 'causal', dict(budget=.8, ncases=200)), (kind, 'causal_batch', dict(budget=.6, ncases=150))], always=True))
    return out


PROPS = {
    'P04': causal_jobs,
    'P06': same_values_jobs,
    'P07': definition_jobs,
    'P10': range_jobs,
    'P08': ring_jobs,
    'P09': registry_jobs,
    'P01': lambda lib: contract_jobs('P01', 'safe_batch', lib, weird=True),
    'P02': lambda lib: contract_jobs('P02', 'exact_output', lib, weird=True),
    'P03': accept_jobs,
    'P05': lambda lib: stream_jobs('P05', [('stream', 'chunks_stream', {})], lib),
    'P11': lambda lib: contract_jobs('P11', 'resources_batch', lib, weird=True),
    'P13': frame_jobs,
    'P12': lambda lib: stream_jobs('P12', [('stream', 'safe_stream', dict(weird=True)), ('stream', 'resources_stream', dict(weird=True))], lib),
}
