"""P09: the generated registry.

The table is the constant initialiser of ti_indicators in the IR compiled from
the generated file; its entries are compared field by field with
indicators.yaml and with the entry points each indicator's source defines.
ti_find_indicator is verified for every C string: strcmp is a total order in
which the table's names are in increasing order (an obligation on the table),
so a string is a rank r (a real number; r = i exactly for name i) and strcmp
against entry i is positive, zero or negative as r is above, at or below i.
The generic stream functions are verified to act on the entry the stream's
index selects."""
import os, re, subprocess, time, z3
import ir, verify, solve, infer, stream
from terms import *
from execu import *
from batch import BaseEnv
from interp import Obj as IObj

TAB = 'G:ti_indicators'


def unit(lib):
    p = lib.compile('indicators_index', os.path.join(lib.src, 'indicators_index.c'))
    return ir.parse(open(p).read())


def cstr(m, v):
    """text of a pointer to a string literal"""
    if v is None or v[0] in ('null', 'zero'):
        return None
    if v[0] == 'g':
        g = m.globals.get(v[1])
        if g and g[1] and g[1][0] == 'str':
            return eval('b' + re.sub(r'\\([0-9A-Fa-f]{2})', r'\\x\1', g[1][1][1:]))[:-1].decode('utf8', 'replace') if not g[1][1].startswith('c"') else \
                bytes(re.sub(rb'\\([0-9A-Fa-f]{2})', lambda k: bytes([int(k.group(1), 16)]), g[1][1][2:-1].encode('latin1'))).rstrip(b'\0').decode('utf8', 'replace')
        if g and g[1] and g[1][0] == 'zero':
            return ''
    return '?'


def fname(v):
    if v is None or v[0] in ('null', 'zero') or v == ('i', 0):
        return None
    return v[1] if v[0] == 'g' else '?'


def flat(v, n):
    if v is None or v[0] == 'zero':
        return [('zero',)] * n
    out = []
    for x in v[1]:
        if x[0] == 'agg':
            out += flat(x, len(x[1]))
        elif x[0] == 'zero' and len(out) < n:
            out.append(x)
        else:
            out.append(x)
    return (out + [('zero',)] * n)[:n]


def table(m):
    ty, init, const = m.globals['ti_indicators']
    rows = []
    for e in init[1]:
        if e[0] == 'zero':
            rows.append(None)
            continue
        f = e[1]
        num = lambda v: 0 if v[0] == 'zero' else v[1]
        rows.append(dict(name=cstr(m, f[0]), full=cstr(m, f[1]), start=fname(f[2]), batch=fname(f[3]), ref=fname(f[4]), type=num(f[5]), inputs=num(f[6]),
                         options=num(f[7]), outputs=num(f[8]), innames=[cstr(m, x) for x in flat(f[9], 10)], optnames=[cstr(m, x) for x in flat(f[10], 10)],
                         outnames=[cstr(m, x) for x in flat(f[11], 10)], new=fname(f[12]), run=fname(f[13]), free=fname(f[14])))
    return rows


TYPES = {'overlay': 1, 'indicator': 2, 'math': 3, 'simple': 4, 'comparative': 5}


def prove_table(lib):
    r = verify.Result('ti_indicators')
    r.vacuous = False
    r.kinds = {}
    m = unit(lib)
    rows = table(m)

    def ob(kind, where, ok):
        r.total += 1
        r.kinds[kind] = r.kinds.get(kind, 0) + 1
        if ok:
            r.done += 1
        else:
            o = Obligation(kind, True, False, where)
            o.status = 'failed'
            r.fails.append((o, None))
    names = [x['name'] for x in rows[:-1] if x]
    ob('table-complete', 'one entry per indicator of indicators.yaml', sorted(names) == sorted(lib.yaml))
    ob('table-sentinel', 'the last entry is empty', rows[-1] is None or rows[-1]['name'] is None)
    ob('entry-count', 'ti_indicator_count', returns(m, 'ti_indicator_count') == len(lib.yaml))
    bs = [n.encode() for n in names]
    for a, b in zip(bs, bs[1:]):
        ob('table-sorted', '%r before %r' % (a, b), a < b)
    for k, x in enumerate(rows[:-1]):
        if x is None or x['name'] not in lib.yaml:
            ob('entry-fields', 'entry %d' % k, False)
            continue
        n = x['name']
        full, typ, ins, opts, outs, feats = lib.yaml[n][:6]
        feats = feats or ()
        pad = lambda s: list(map(str, s or [])) + [None] * (10 - len(s or []))
        want = dict(full=full, type=TYPES.get(typ), inputs=len(ins or []), options=len(opts or []), outputs=len(outs or []),
                    innames=pad(ins), optnames=pad(opts), outnames=pad(outs), start='ti_%s_start' % n, batch='ti_' + n,
                    ref='ti_%s_ref' % n if 'ref' in feats else None,
                    **{k: 'ti_%s_stream_%s' % (n, k) if 'stream' in feats else None for k in ('new', 'run', 'free')})
        for f, w in want.items():
            ob('entry-fields', '%s.%s is %r, not %r' % (n, f, x[f], w), x[f] == w)
        for f in ('start', 'batch', 'ref', 'new', 'run', 'free'):
            if x[f] is not None:
                mod, fn = lib.find(x[f])
                ob('entry-points-defined', x[f], fn is not None and mod.stem == lib.stem_of('ti_' + n))
    return r


def returns(m, f):
    f = m.funcs[f]
    f.parser.body(f)
    for b in f.blocks.values():
        for i in b.instrs:
            if i.op == 'ret':
                return i.args[0][1]


class FindEnv(BaseEnv):
    table = TAB

    def __init__(self, lib, mods, n, size):
        class S:
            nopt, nin, nout, optnames, name = 0, 0, 0, [], 'index'
        BaseEnv.__init__(self, S, mods, lib)
        self.n, self.esz = n, size // 8
        self.r = z3.Real('rank')

    def setup(self, ex, st):
        ex.objs['NAME'] = Obj('NAME', None, 'ro')
        ex.objs['FLD'] = Obj('FLD', None, 'ro')
        ex.objs['ARG'] = Obj('ARG', None, 'ro')
        ex.objs['STREAM'] = Obj('STREAM', 8, 'stream')
        self.index = ex.fint('index', 0, self.n - 1)
        self.progress = ex.fint('progress', -2 ** 31, 2 ** 31 - 1)
        self.args = []
        P = lambda o, b=0: PV([(True, o, None, b, 0)])
        for k, (t, nm) in enumerate(ex.fn.params):
            if ex.fn.name == 'ti_find_indicator':
                a = P('NAME')
            elif t == 'ptr' and k == 0:
                a = P('STREAM')
            elif t == 'ptr':
                a = P('ARG', k)
            else:
                a = ex.fint('arg%d' % k, -2 ** 31, 2 ** 31 - 1)
            self.args.append(a)
            ex.R[nm] = a

    def init_cell(self, ex, key, ty):
        if key[1] == 'STREAM' and ty == 'i32':
            return self.index if key[2] == 0 else self.progress
        return None

    def entry(self, ex, key, ix):
        return PV([(True, 'FLD', None, add(ix, key[2] // 8), 0)])

    def word(self, ex, e):
        """(entry number, field word) of a word offset into the table"""
        for f in range(self.esz):
            d = self.divided(sub(e, f))
            if d is not None:
                return d, f
        raise Unsupported('table offset ' + str(e))

    def divided(self, e):
        if isinstance(e, int):
            return e // self.esz if e % self.esz == 0 else None
        s = z3.Solver()
        solve.limit(s, 1000)
        s.add(zi(e) % self.esz != 0)
        if s.check() == z3.unsat:
            return z3.simplify(zi(e) / self.esz)
        return None

    def call(self, ex, c, A, i, reach):
        if c == 'strcmp' and ex.fn.name == 'ti_find_indicator':
            who = [a.alts[0][1] if len(a.alts) == 1 else '?' for a in A]
            if sorted(who) != ['FLD', 'NAME']:
                raise Unsupported('strcmp of ' + str(who))
            t = A[who.index('FLD')].alts[0][3]
            k, f = self.word(ex, t)
            if f != 0:
                ex.oblig('lookup-compares-names', reach, False, i.line)
            ex.oblig('lookup-inside-table', reach, And(cmp('>=', k, 0), cmp('<', k, self.n)), i.line)
            c = ex.fint(ex.fresh_name('cmp'), -2 ** 31, 2 ** 31 - 1)
            k = z3.ToReal(zi(k))
            s = 1 if who[0] == 'NAME' else -1
            ex.assume(z3.And((c == 0) == (self.r == k), (s * c > 0) == (self.r > k), (s * c < 0) == (self.r < k)))
            return c
        return NotImplemented

    def indirect(self, ex, p, A, reach, i):
        if not isinstance(p, PV) or len(p.alts) != 1 or p.alts[0][1] != 'FLD':
            raise Unsupported('indirect call')
        k, f = self.word(ex, p.alts[0][3])
        want = {'ti_stream_run': 256 // 8 + 7, 'ti_stream_free': 256 // 8 + 8}
        ex.calls = getattr(ex, 'calls', [])
        same_args = len(A) == len(self.args) and all(
            (x.alts == y.alts if isinstance(x, PV) and isinstance(y, PV) else x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))) for x, y in zip(A, self.args))
        ex.calls.append((reach, k, f, same_args))
        v = ex.fint(ex.fresh_name('ret'), -2 ** 31, 2 ** 31 - 1) if i.res is not None else None
        self.ret = v
        return v

    def sym(self, ex, n):
        raise infer.NA


class RankInv:
    """rank of a name of the table against an integer loop variable"""
    def __init__(self, v, c, op):
        self.v, self.c, self.op = v, c, op

    def formula(self, ex, h, st, R):
        try:
            t = infer.vget(ex, self.v, st, R)
        except infer.NA:
            return None
        t = z3.ToReal(zi(add(t, self.c))) if z3.is_expr(t) else z3.RealVal(t + self.c)
        r = ex.env.r
        return z3.Or(r < 0, r > ex.env.n - 1, r > t if self.op == '>' else r < t)

    def __str__(self):
        return 'rank %s %s %+d' % (self.op, self.v, self.c)


def offsets(m):
    """field offsets of an entry, from the struct type"""
    t = ('struct', 'struct.ti_indicator_info')
    return m.fields(t)[0], m.sizeof(t)


def prove_find(lib):
    r = verify.Result('ti_find_indicator')
    r.vacuous = False
    m = unit(lib)
    fn = m.funcs['ti_find_indicator']
    fn.parser.body(fn)
    n = len(table(m)) - 1
    size = offsets(m)[1]

    def mk(plan, invs=None, ranks=None):
        ex = Exec(m, fn, FindEnv(lib, [m], n, size), 'safe', '', plan, invs, mods=[m])
        ex.ranks = ranks or {}
        return ex
    plan, ex = verify.plan_loop(mk)
    invs, ranks = {}, {}
    for h in ex.cfg.headers:
        out, cols = [], [('p', i.res) for i in ex.phis(h) if i.ty in ('i32', 'i64')]
        for v in cols:
            for c in (-1, 0, 1):
                out += [RankInv(v, c, '>'), RankInv(v, c, '<')]
            for lo in (-1, 0, 1):
                out.append(infer.Lin([(v, 1)], -lo, '>='))
            for hi in (n - 2, n - 1, n, n + 1):
                out.append(infer.Lin([(v, -1)], hi, '>='))
            for w in cols:
                if w is not v:
                    for c in (-1, 0, 1, 2):
                        out.append(infer.Lin([(v, 1), (w, -1)], c, '>='))
        invs[h] = out
        ranks[h] = [([(v, s)], n + 1) for v in cols for s in (1, -1)] + [([(v, 1), (w, -1)], 1) for v in cols for w in cols if v is not w]
    ex = mk(plan, invs, ranks)
    ex.run()
    keep = set(map(id, solve.houdini(ex, 3000)))
    for h in invs:
        invs[h] = [i for i in invs[h] if id(i) in keep]
    ex = mk(plan, invs, ranks)
    ex.run()
    ranks = verify.pick_ranks(ex, invs, ranks, 3000)
    ex = mk(plan, invs, ranks)
    ex.run()
    env = ex.env
    k = ex.fint('k', 0, n - 1)
    for (g, st, v) in ex.rets:
        if not isinstance(v, PV):
            raise Unsupported('result of ti_find_indicator')
        for (ga, o, bs, e, b) in v.alts:
            gg = And(g, ga)
            if o is None:
                ex.oblig('every-name-found', gg, zb(env.r != z3.ToReal(k)), 'ret')
            elif o == TAB:
                i, f = env.word(ex, e)
                ex.oblig('found-entry-has-the-name', gg, And(f == 0 and b == 0, zb(env.r == z3.ToReal(zi(i))), cmp('>=', i, 0), cmp('<', i, n)), 'ret')
            else:
                ex.oblig('found-entry-has-the-name', gg, False, 'ret')
    r.total, r.done, r.fails, s = solve.discharge(ex, 5000)
    r.kinds = verify.kinds_of(ex, None)
    r.ninv = sum(map(len, invs.values()))
    r.vacuous = verify.vacuous(ex, s, 2000)
    return r


def prove_dispatch(lib, name):
    r = verify.Result(name)
    r.vacuous = False
    m = unit(lib)
    fn = m.funcs[name]
    fn.parser.body(fn)
    n = len(table(m)) - 1
    offs, size = offsets(m)
    plan, ex = verify.plan_loop(lambda pl: Exec(m, fn, FindEnv(lib, [m], n, size), 'safe', '', pl, None, mods=[m]))
    env = ex.env
    if ex.cfg.headers:
        raise Unsupported('loop in ' + name)
    field = {'ti_stream_run': offs[13] // 8, 'ti_stream_free': offs[14] // 8}.get(name)
    calls = getattr(ex, 'calls', [])
    for (g, st, v) in ex.rets:
        if field is not None:
            ex.oblig('dispatch-once', g, len(calls) == 1 and (calls[0][0] is True or same(calls[0][0], g)), 'ret')
        if name == 'ti_stream_run':
            ex.oblig('dispatch-result', g, v is getattr(env, 'ret', None) or z3.is_expr(v) and v.eq(env.ret), 'ret')
        if name == 'ti_stream_get_progress':
            ex.oblig('progress-reported', g, cmp('==', v, env.progress), 'ret')
        if name == 'ti_stream_get_info':
            for (ga, o, bs, e, b) in v.alts:
                ex.oblig('info-entry', And(g, ga), And(o == TAB and b == 0, cmp('==', e, mulc(env.index, size // 8))) if o == TAB else False, 'ret')
    for (g, k, f, same_args) in calls:
        ex.oblig('dispatch-own-function', g, And(f == field, cmp('==', k, env.index)), 'call')
        ex.oblig('dispatch-arguments', g, same_args, 'call')
    r.total, r.done, r.fails, s = solve.discharge(ex, 3000)
    r.kinds = verify.kinds_of(ex, None)
    return r


IDX = {'stream-index', 'stream-object-returned', 'index-unchanged'}


def prove_index(lib, name):
    """the stream object carries the index of its own entry, for its whole life"""
    only = lambda o: o.kind in IDX
    r = verify.Result('ti_%s_stream' % name)
    r.vacuous = False
    p = stream.StreamProof(lib, name, nruns=0, only=only)
    plan, ex = verify.plan_loop(p.mk_new)
    ex.env.post(ex)
    p.nx, p.sh = ex, ex.env.shape
    p.judge(r, ex, 'new', 0)
    if p.sh.main is None:
        r.undecided = 'shape of the stream object not understood'
        return r
    plan, ex, mut = p.mutable_cells()
    p.mut = mut
    ex = p.mk_obj('run', plan, mut, [])
    ex.run()
    ex.env.post(ex)
    p.judge(r, ex, 'run', 0)
    return r


# ---- concrete checks of the generated table, lookup and dispatch ---------------
def table_case(lib):
    r = prove_table(lib)
    if r.fails:
        o = r.fails[0][0]
        return dict(name='index', kind='table', oracle='registry', why='%s: %s' % (o.kind, o.where)), r.total
    return None, r.total


def probes(lib, seed):
    import random
    rng = random.Random(seed)
    names = sorted(lib.yaml)
    out = list(names) + ['', '~', 'zzzz', 'A', '\x7f', 'ti_sma']
    for n in names:
        out += [n + 'x', n[:-1], n.upper(), n + '_', 'a' + n, n[1:]] + [n[:k] + rng.choice('abcdefghijklmnopqrstuvwxyz_0') + n[k + 1:] for k in range(len(n))]
    return out


def build(lib):
    """the generated file linked with stand-ins that record which function of
    which indicator was reached"""
    d = os.path.join(lib.work, 'reg')
    exe = os.path.join(d, 'm')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    c = ['#include "indicators.h"', '#include <stdio.h>', '#include <string.h>', 'extern struct ti_indicator_info ti_indicators[];',
         'static int who = -1, what, calls; static const void *a0; static int a1; static const void *a2, *a3;']
    for k, n in enumerate(sorted(lib.yaml)):
        f = lib.yaml[n][5] or ()
        c.append('int ti_%s_start(TI_REAL const *o){return 0;}' % n)
        for s in [''] + (['_ref'] if 'ref' in f else []):
            c.append('int ti_%s%s(int n, TI_REAL const *const *i, TI_REAL const *o, TI_REAL *const *u){return 0;}' % (n, s))
        if 'stream' in f:
            c.append('int ti_%s_stream_new(TI_REAL const *o, ti_stream **s){return 0;}' % n)
            c.append('int ti_%s_stream_run(ti_stream *s, int n, TI_REAL const *const *i, TI_REAL *const *u){who=%d;what=1;calls++;a0=s;a1=n;a2=i;a3=u;return %d;}' % (n, k, 1000 + k))
            c.append('void ti_%s_stream_free(ti_stream *s){who=%d;what=2;calls++;a0=s;}' % (n, k))
    c.append(r"""
struct S { int index, progress; };
int main(int argc, char **argv) {
    char b[200];
    while (fgets(b, 200, stdin)) {
        b[strcspn(b, "\n")] = 0;
        if (b[0] == '#') {
            int k = atoi(b + 1);
            struct S s = { k, 77 - 3 * k };
            TI_REAL x; TI_REAL const *pi[1] = { &x }; TI_REAL *po[1] = { &x };
            const char *e = "ok";
            calls = 0;
            if (ti_stream_get_info((ti_stream*)&s) != ti_indicators + k) e = "ti_stream_get_info";
            else if (ti_stream_get_progress((ti_stream*)&s) != 77 - 3 * k) e = "ti_stream_get_progress";
            else {
                int r = ti_stream_run((ti_stream*)&s, 5 + k, pi, po);
                if (calls != 1 || who != k || what != 1 || a0 != &s || a1 != 5 + k || a2 != pi || a3 != po || r != 1000 + k) e = "ti_stream_run";
                else { ti_stream_free((ti_stream*)&s); if (calls != 2 || who != k || what != 2 || a0 != &s) e = "ti_stream_free"; }
            }
            printf("%s\n", e);
        } else {
            const ti_indicator_info *p = ti_find_indicator(b);
            printf("%s\n", p ? (p->name ? p->name : "(null)") : "-");
        }
        fflush(stdout);
    }
    return 0;
}""")
    src = os.path.join(d, 'm.c')
    open(src, 'w').write('#include <stdlib.h>\n' + '\n'.join(c))
    x = subprocess.run(['clang', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I', lib.src, src, os.path.join(lib.src, 'indicators_index.c'), '-o', exe],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return exe if x.returncode == 0 else None


def concrete(lib, seed=1):
    """every name, strings near every name, and the generic functions on every stream"""
    exe = build(lib)
    if exe is None:
        return None, 0
    ps = probes(lib, seed)
    st = [k for k, n in enumerate(sorted(lib.yaml)) if 'stream' in (lib.yaml[n][5] or ())]
    ps += ['#%d' % k for k in st]
    try:
        x = subprocess.run([exe], input='\n'.join(ps) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        got, err = x.stdout.split('\n')[:-1], x.stderr[-200:]
    except subprocess.TimeoutExpired as e:
        got, err = (e.stdout or b'').decode().split('\n')[:-1], 'no answer'
    names = sorted(lib.yaml)
    for p, g in zip(ps, got + [None] * len(ps)):
        w = 'ok' if p[:1] == '#' else p if p in lib.yaml else '-'
        if g is None:
            g, w = err, 'an answer'
        if g != w:
            why = 'the stream of %s: %s does not act on it' % (names[int(p[1:])], g) if p[:1] == '#' else 'ti_find_indicator(%r) gives %s, expected %s' % (p, g, w)
            return dict(name='index', kind='lookup', oracle='registry', string=p, why=why), len(ps)
    return None, len(ps)
