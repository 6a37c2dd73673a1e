"""Verification-condition generator: symbolic execution of one function's
control-flow graph with loops cut at their headers (passive form).

Produces a sequence of events ('A', formula) / ('O', Obligation) in program
order.  The event order matters: an obligation may only use assumptions that
precede it."""
import z3
from fractions import Fraction
import ir
from terms import *

OPTBOUND = 10 ** 6


class Unsupported(Exception):
    pass


class Obligation:
    __slots__ = ('kind', 'guard', 'f', 'where', 'idx', 'status', 'tag')

    def __init__(self, kind, guard, f, where, tag=None):
        self.kind, self.guard, self.f, self.where, self.tag = kind, guard, f, where, tag
        self.status = None


class FV:
    """a floating-point value: t is a Fraction / Real term, or None (unknown,
    possibly NaN)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


TOP = FV(None)


class PV:
    """pointer: list of (guard, obj|None, base, e, b), address = obj + 8*e + b"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


NULLPV = PV([(True, None, None, 0, 0)])
ZERO = 'ZERO'


class Obj:
    __slots__ = ('name', 'size', 'kind', 'zero', 'site')

    def __init__(self, name, size, kind, zero=False):
        self.name, self.size, self.kind, self.zero = name, size, kind, zero


class St:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = dict(m) if m else {}

    def copy(self):
        return St(self.m)


class Plan:
    def __init__(self):
        self.ptr = {}       # (h, key) -> set of (obj, base)
        self.mods = {}      # h -> set of keys
        self.regions = {}   # obj -> {base: len|None}
        self.structs = set()
        self.arrhint = {}   # (obj, offset) -> bytes of the array member there


def bits(t):
    return int(t[1:])


SUPPORTED_MATH1 = {'sqrt', 'log', 'log10', 'exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan'}


class Exec:
    def __init__(self, mod, fn, env, mode='safe', prefix='', plan=None, invs=None, allocfail=True, mods=None):
        self.mod, self.fn, self.env, self.mode = mod, fn, env, mode
        self.mods = mods or [mod]
        self.cfg = ir.CFG(fn) if not hasattr(fn, '_cfg') else fn._cfg
        fn._cfg = self.cfg
        self.prefix = prefix
        self.plan = plan or Plan()
        self.invs = invs or {}          # h -> list of Inv
        self.allocfail = allocfail
        self.R = {}                     # ssa env
        self.ev = []
        self.rng = {}
        self.keep = []
        self.objs = {}
        self.n = 0
        self.reach = {}
        self.hst = {}                   # header -> St at header (after havoc)
        self.hentry = {}                # header -> (reach, St, phi entry vals)
        self.latch = {}                 # header -> list (cond, St, phivals, src)
        self.rets = []
        self.exc = []                   # escaping exceptions (cond)
        self.written = {}               # block -> keys
        self.curblock = None
        self.celltys = {}
        self.hinted = set()
        self.replan = False
        self.axioms_seen = set()
        self.reads = []                 # hook for ghost read tracking
        self.defs = {}
        self.failflags = []
        self.depth = 0
        self.ranks = {}
        self.initial = {}

    # ------------------------------------------------------------ utilities
    def fresh_name(self, s):
        self.n += 1
        return '%s%s!%d' % (self.prefix, s, self.n)

    def fint(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.setr(v, lo, hi)
            self.assume(z3.And(v >= lo, v <= hi))
        return v

    def setr(self, t, lo, hi):
        if z3.is_expr(t):
            i = t.get_id()
            o = self.rng.get(i)
            if o:
                lo, hi = max(lo, o[0]), min(hi, o[1])
            else:
                self.keep.append(t)
            self.rng[i] = (lo, hi)
        return t

    def range(self, t, n=64):
        if isinstance(t, int):
            return (t, t)
        r = self.rng.get(t.get_id())
        if r:
            return r
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1)

    def assume(self, f):
        if f is True:
            return
        self.ev.append(('A', zb(f)))

    def oblig(self, kind, guard, f, where='', tag=None):
        if guard is False:
            return None
        o = Obligation(kind, guard, f, where, tag)
        if f is True:
            o.status = 'trivial'
        self.ev.append(('O', o))
        return o

    def axiom(self, key, fs):
        if key in self.axioms_seen:
            return
        self.axioms_seen.add(key)
        for f in fs:
            self.assume(f)

    # ------------------------------------------------------------- values
    def val(self, v, ty=None):
        k = v[0]
        if k == 'r':
            return self.R[v[1]]
        if k == 'i':
            if ty == 'i1':
                return bool(v[1])
            return v[1]
        if k == 'f':
            x = v[1]
            if x != x or x in (float('inf'), float('-inf')):
                return self.fconst_special(x)
            return FV(Fraction(x))
        if k == 'null':
            return NULLPV
        if k in ('undef', 'zero'):
            t = v[1]
            if t == 'ptr':
                return NULLPV
            if t == 'double':
                return FV(Fraction(0)) if k == 'zero' else self.ffresh('undef')
            if isinstance(t, str):
                if k == 'zero':
                    return False if t == 'i1' else 0
                if t == 'i1':
                    return z3.Bool(self.fresh_name('undef'))
                n = bits(t)
                return self.fint(self.fresh_name('undef'), -(1 << (n - 1)), (1 << (n - 1)) - 1)
            return [None] * len(self.mod.elems(t)) if t[0] != 'arr' else None
        if k == 'g':
            return PV([(True, self.globobj(v[1]), None, 0, 0)])
        if k == 'cgep':
            return self.gep(self.val(v[2]), v[1], [self.val(x, t) for t, x in v[3]], [t for t, _ in v[3]])
        raise Unsupported('value %r' % (v,))

    INF = {}

    def fconst_special(self, x):
        if self.mode == 'safe':
            return TOP
        n = 'NAN' if x != x else ('INF' if x > 0 else 'NINF')
        return FV(z3.Real(n))

    def ffresh(self, hint):
        if self.mode == 'safe':
            return TOP
        return FV(z3.Real(self.fresh_name(hint)))

    def globobj(self, name):
        on = 'G:' + name
        if on not in self.objs:
            ty, init, const = None, None, False
            for m in self.mods:
                if name in m.globals and m.globals[name][0] is not None:
                    ty, init, const = m.globals[name]
                    self.objs[on] = Obj(on, m.sizeof(ty), 'glob')
                    self.objs[on].site = (m, ty, init, const)
                    break
            else:
                self.objs[on] = Obj(on, 8, 'glob')
                self.objs[on].site = None
        return on

    # ------------------------------------------------------------ pointers
    def hint_arrays(self, o, off, ty):
        """remember where a structure has array members"""
        k = (o, off, ty)
        if k in self.hinted:
            return
        self.hinted.add(k)
        def walk(t, at):
            if isinstance(t, str):
                return
            if t[0] == 'arr':
                if isinstance(t[2], str):
                    self.plan.arrhint[(o, at)] = t[1] * self.mod.sizeof(t[2])
                return
            for f, e in zip(self.mod.fields(t)[0], self.mod.elems(t)):
                walk(e, at + f)
        walk(ty, off)

    def in_array(self, o, off):
        for (o2, at), ln in self.plan.arrhint.items():
            if o2 == o and at <= off < at + ln:
                return at
        return None

    def gep(self, base, sty, idx, itys):
        """typed address arithmetic"""
        alts = []
        for (g, o, bs, e, b) in base.alts:
            if sty[0] == 'struct' and o is not None and o not in self.plan.structs:
                self.plan.structs.add(o)
                self.replan = True
            if sty[0] == 'struct' and o not in (None, '?') and isinstance(e, int) and isinstance(b, int) and idx[0] == 0:
                self.hint_arrays(o, 8 * e + b, sty)
            ty = sty
            terms = []       # (index term, scale)
            off = 0
            nb = bs
            s = self.mod.sizeof(ty)
            i0 = idx[0]
            if isinstance(i0, int):
                off += i0 * s
            else:
                terms.append((i0, s))
            for k, i in enumerate(idx[1:], 1):
                if ty[0] == 'arr':
                    n, ty = ty[1], ty[2]
                    s = self.mod.sizeof(ty)
                    if isinstance(i, int):
                        if isinstance(e, int) and isinstance(b, int) and o is not None and not terms:
                            self.plan.arrhint[(o, 8 * e + b + off)] = n * s
                        off += i * s
                    else:
                        if not terms and isinstance(e, int) and isinstance(b, int):
                            nb = 8 * e + b + off
                            self.region(o, nb, n * s)
                        terms.append((i, s))
                else:
                    off += self.mod.fields(ty)[0][i]
                    ty = self.mod.elems(ty)[i]
            # combine
            if not terms and isinstance(b, int):
                t = b + off
                alts.append((g, o, nb, add(e, t // 8), t % 8))
                continue
            if nb is None and o is not None:
                # becoming symbolic from a constant offset: choose the region
                c = (8 * e + b + off) if isinstance(e, int) and isinstance(b, int) else 0
                nb = self.pick_region(o, c)
            ne, nbb = e, add(b, off)
            for i, s in terms:
                if s % 8 == 0:
                    ne = add(ne, mulc(i, s // 8))
                else:
                    nbb = add(nbb, mulc(i, s))
            if isinstance(nbb, int):
                ne = add(ne, nbb // 8)
                nbb = nbb % 8
            alts.append((g, o, nb, ne, nbb))
        return PV(alts)

    def region(self, o, base, ln):
        if o is None:
            return
        r = self.plan.regions.setdefault(o, {})
        ob = self.objs.get(o)
        if ob is not None and isinstance(ob.size, int) and base + ln >= ob.size and ln <= 8 and ob.kind != 'glob':
            ln = None
        if ob is not None and not isinstance(ob.size, int) and ln <= 8:
            ln = None
        if base not in r:
            r[base] = ln
            self.replan = True

    def pick_region(self, o, c):
        r = self.plan.regions.setdefault(o, {})
        ob = self.objs.get(o)
        best = None
        for b, ln in r.items():
            if b <= c and (ln is None or c <= b + ln):
                if best is None or b > best:
                    best = b
        if best is not None and (best == c or r[best] is None or c < best + r[best]):
            return best
        if ob is not None and ob.kind in ('struct', 'stream'):
            base = c
        else:
            base = c if o in self.plan.structs else 0
        if base not in r:
            r[base] = self.plan.arrhint.get((o, base))
            self.replan = True
        return base

    def ite_val(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if a is ZERO or b is ZERO:
            if a is ZERO and b is ZERO:
                return ZERO
            o = b if a is ZERO else a
            z = self.typed_zero(o)
            return self.ite_val(c, z if a is ZERO else a, z if b is ZERO else b)
        if isinstance(a, FV) or isinstance(b, FV):
            if not (isinstance(a, FV) and isinstance(b, FV)):
                raise Unsupported('merge fp/non-fp')
            if a.t is None or b.t is None:
                return TOP
            if same(a.t, b.t):
                return a
            return FV(ite(c, zr(a.t), zr(b.t)))
        if isinstance(a, PV) or isinstance(b, PV):
            if not (isinstance(a, PV) and isinstance(b, PV)):
                raise Unsupported('merge ptr/non-ptr')
            return self.merge_pv([(c, a), (Not(c), b)])
        if isinstance(a, list) or isinstance(b, list):
            return [self.ite_val(c, x, y) if x is not None and y is not None else (x if y is None else y) for x, y in zip(a, b)]
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, z3.ArrayRef) or isinstance(b, z3.ArrayRef):
            return a if a.eq(b) else z3.If(c, a, b)
        r = ite(c, a, b)
        if z3.is_expr(r) and z3.is_int(r):
            ra, rb = self.range(a), self.range(b)
            self.setr(r, min(ra[0], rb[0]), max(ra[1], rb[1]))
        return r

    def typed_zero(self, o):
        if isinstance(o, FV):
            return FV(Fraction(0))
        if isinstance(o, PV):
            return NULLPV
        if isinstance(o, bool) or z3.is_bool(zz(o)):
            return False
        return 0

    def merge_pv(self, gvs):
        acc = []
        for c, p in gvs:
            for (g, o, bs, e, b) in p.alts:
                gg = And(c, g)
                if gg is False:
                    continue
                for k, (g2, o2, bs2, e2, b2) in enumerate(acc):
                    if o2 == o and (bs2 == bs or o is None):
                        if o is None:
                            acc[k] = (Or(g2, gg), None, None, 0, 0)
                            break
                        if isinstance(b, int) and isinstance(b2, int) and b != b2:
                            continue
                        acc[k] = (Or(g2, gg), o, bs, self.ite_val(gg, e, e2), self.ite_val(gg, b, b2))
                        break
                else:
                    acc.append((gg, o, bs, e, b))
        # harmonise const-offset / region alternatives of the same object
        return PV(acc)

    # -------------------------------------------------------------- memory
    def key_of(self, o, bs, e, b, ty):
        """memory key and index for an access; index None for a cell"""
        r = self.plan.regions.get(o, {})
        const = isinstance(e, int) and isinstance(b, int)
        if const:
            off = 8 * e + b
            for base, ln in r.items():
                if base <= off and (ln is None or off < base + ln):
                    return ('a', o, base), e - base // 8 if base % 8 == 0 and b == 0 else None, off
            return ('c', o, off), None, off
        if bs is None:
            bs = self.pick_region(o, 0)
        return ('a', o, bs), sub(e, bs // 8), None

    def init_array(self, key):
        _, o, base = key
        ob = self.objs.get(o)
        if ob is not None and ob.zero:
            return z3.K(z3.IntSort(), z3.RealVal(0))
        return self.env.init_array(self, key)

    def init_cell(self, key, ty):
        _, o, off = key
        ob = self.objs.get(o)
        v = self.env.init_cell(self, key, ty)
        if v is not None:
            return v
        if ob is not None and ob.zero:
            return ZERO
        if ob is not None and ob.kind == 'glob':
            return self.glob_cell(ob, off, ty)
        nm = '%s@%s+%d' % (self.prefix0(), o, off)
        if ty == 'double':
            return TOP if self.mode == 'safe' else FV(z3.Real(nm))
        if ty == 'ptr':
            return PV([(True, '?', None, 0, 0)])
        if ty == 'i1':
            return z3.Bool(nm)
        n = bits(ty)
        return self.fint(nm, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def prefix0(self):
        return self.prefix

    def glob_cell(self, ob, off, ty):
        if ob.site is None:
            return self.ffresh('g') if ty == 'double' else z3.Int(self.fresh_name('g'))
        m, gt, init, const = ob.site
        def find(t, v, o):
            if v is None:
                return None
            if v[0] == 'zero':
                return ZERO
            if isinstance(t, str):
                return v if o == 0 else None
            if t[0] == 'arr':
                s = m.sizeof(t[2])
                return find(t[2], v[1][o // s], o % s) if v[0] == 'agg' else None
            offs = m.fields(t)[0]
            k = max(i for i in range(len(offs)) if offs[i] <= o)
            return find(m.elems(t)[k], v[1][k], o - offs[k])
        v = find(gt, init, off)
        if v is None:
            return self.ffresh('g') if ty == 'double' else z3.Int(self.fresh_name('g'))
        if v is ZERO:
            return ZERO
        return self.val(v, ty)

    def coerce(self, v, ty):
        if v is ZERO:
            return FV(Fraction(0)) if ty == 'double' else (NULLPV if ty == 'ptr' else (False if ty == 'i1' else 0))
        ok = (isinstance(v, FV) and ty == 'double') or (isinstance(v, PV) and ty == 'ptr') or \
             (not isinstance(v, (FV, PV)) and ty not in ('double', 'ptr'))
        if not ok:
            if ty == 'double':
                return self.ffresh('pun')
            if ty == 'ptr':
                return PV([(True, '?', None, 0, 0)])
            n = bits(ty)
            return self.fint(self.fresh_name('pun'), -(1 << (n - 1)), (1 << (n - 1)) - 1)
        if ty == 'i1' and not (isinstance(v, bool) or z3.is_bool(zz(v))):
            return cmp('!=', v, 0)
        if ty[0] == 'i' and ty != 'i1' and (isinstance(v, bool) or z3.is_bool(zz(v))):
            return ite(v, 1, 0)
        return v

    def bounds(self, st, guard, o, bs, e, b, nbytes, where, write):
        """obligations for accessing nbytes at (o, e, b)"""
        if o is None:
            self.oblig('null-dereference', guard, False, where)
            return False
        if o == '?':
            self.oblig('wild-pointer', guard, False, where)
            return False
        ob = self.objs[o]
        lo = 0
        hi = ob.size
        r = self.plan.regions.get(o, {})
        if bs is not None and r.get(bs) is not None:
            lo, hi = bs, bs + r[bs]
        if not (isinstance(e, int) and isinstance(b, int)) or True:
            off = add(mulc(e, 8), b)
            k = self.env.access_kind(ob, write)
            if ob.size is not None:
                if isinstance(nbytes, int) and nbytes == 8 and b == 0 and isinstance(hi, tuple):
                    pass
                f = And(cmp('>=', off, lo), cmp('<=', add(off, nbytes), hi))
                if not isinstance(nbytes, int):
                    f = Or(cmp('<=', nbytes, 0), f)
                self.oblig(k, guard, f, where, tag=(o, 'w' if write else 'r'))
        if write:
            self.oblig('frame-write', guard, ob.kind not in ('ro', 'glob', 'opt') and o not in ('INP', 'OUTP'), where)
        fr = st.m.get(('freed', o))
        if fr is not None and fr is not False:
            self.oblig('use-after-free', guard, Not(fr), where)
        self.env.on_access(self, st, guard, ob, bs, e, b, nbytes, where, write)
        return True

    def bounds_plain(self, st, guard, o, bs, e, b, nbytes, where, write):
        sv = self.env.on_access
        self.env.on_access = lambda *a: None
        try:
            return self.bounds(st, guard, o, bs, e, b, nbytes, where, write)
        finally:
            del self.env.__dict__['on_access']

    def load(self, st, reach, p, ty, where):
        out = []
        for (g, o, bs, e, b) in p.alts:
            gg = And(reach, g)
            if gg is False:
                continue
            nb = self.mod.sizeof(ty)
            if not self.bounds(st, gg, o, bs, e, b, nb, where, False):
                continue
            key, ix, off = self.key_of(o, bs, e, b, ty)
            if key[0] == 'c':
                if key in st.m:
                    v = st.m[key]
                else:
                    v = self.init_cell(key, ty)
                    self.celltys[key] = ty
                    self.initial[key] = v
                v = self.coerce(v, ty)
            else:
                v = self.load_arr(st, key, ix, ty, o, off)
            out.append((g, v))
        if not out:
            return self.anyval(ty, 'bad')
        v = out[-1][1]
        for g, w in reversed(out[:-1]):
            v = self.ite_val(g, w, v)
        if ty[0] == 'i' and ty != 'i1' and z3.is_expr(v):
            n = bits(ty)
            self.setr(v, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return v

    def anyval(self, ty, hint):
        if ty == 'double':
            return self.ffresh(hint)
        if ty == 'ptr':
            return PV([(True, '?', None, 0, 0)])
        if ty == 'i1':
            return z3.Bool(self.fresh_name(hint))
        n = bits(ty)
        return self.fint(self.fresh_name(hint), -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def get_arr(self, st, key):
        a = st.m.get(key)
        if a is None:
            a = self.initial.get(key)
            if a is None:
                a = self.init_array(key)
                self.initial[key] = a
        return a

    def load_arr(self, st, key, ix, ty, o, off=None):
        ob = self.objs[o]
        if ty == 'ptr' and self.env.table is not None and o == self.env.table:
            return self.env.entry(self, key, ix)
        if self.mode == 'safe':
            if (ty == 'ptr' or ob.kind == 'opt') and isinstance(ob.size, int) and ix is not None and ob.size <= 128:
                base = key[2] // 8
                vals = []
                for k in range(base, ob.size // 8):
                    kk = ('c', o, 8 * k)
                    v = st.m.get(kk)
                    if v is None:
                        v = self.initial.get(kk)
                        if v is None:
                            v = self.init_cell(kk, ty)
                            self.celltys[kk] = ty
                            self.initial[kk] = v
                    vals.append((cmp('==', ix, k - base), self.coerce(v, ty)))
                return self.merge_vals(vals)
            if ty == 'ptr':
                raise Unsupported('pointer array with symbolic index')
            return self.anyval(ty, 'ld')
        if ty != 'double' or ix is None:
            if ty == 'ptr':
                raise Unsupported('pointer array with symbolic index')
            return self.anyval(ty, 'ld')
        v = self.env.select(self, st, key, ix)
        if v is not None:
            return v
        a = self.get_arr(st, key)
        return FV(z3.Select(a, zi(ix)))

    def store(self, st, reach, p, ty, v, where):
        for (g, o, bs, e, b) in p.alts:
            gg = And(reach, g)
            if gg is False:
                continue
            nb = self.mod.sizeof(ty)
            if not self.bounds(st, gg, o, bs, e, b, nb, where, True):
                continue
            key, ix, off = self.key_of(o, bs, e, b, ty)
            self.written.setdefault(self.curblock, set()).add(key)
            if key[0] == 'c':
                self.celltys.setdefault(key, ty)
                if g is True:
                    st.m[key] = v
                else:
                    old = st.m.get(key)
                    if old is None:
                        old = self.initial.get(key)
                        if old is None:
                            old = self.init_cell(key, ty)
                            self.initial[key] = old
                    st.m[key] = self.ite_val(g, v, self.coerce(old, ty))
            else:
                self.store_arr(st, g, key, ix, ty, v)

    def store_arr(self, st, g, key, ix, ty, v):
        if ty == 'ptr':
            raise Unsupported('pointer store with symbolic index')
        if self.mode == 'safe':
            st.m[key] = None
            return
        if ty != 'double' or ix is None:
            st.m[key] = z3.Array(self.fresh_name('arr'), z3.IntSort(), z3.RealSort())
            return
        a = self.get_arr(st, key)
        n = z3.Store(a, zi(ix), zr(v.t))
        st.m[key] = n if g is True else z3.If(g, n, a)

    def havoc_range(self, st, p, n, where, reach, fill=None):
        """memset of n bytes at p"""
        for (g, o, bs, e, b) in p.alts:
            gg = And(reach, g)
            if gg is False:
                continue
            if isinstance(n, int) and n == 0:
                continue
            if not self.bounds(st, gg, o, bs, e, b, n, where, True):
                continue
            const = isinstance(e, int) and isinstance(b, int) and isinstance(n, int)
            r = self.plan.regions.get(o, {})
            if const:
                off = 8 * e + b
                for k in range(off, off + n, 4):
                    key = ('c', o, k)
                    inreg = any(bb <= k and (ln is None or k < bb + ln) for bb, ln in r.items())
                    if inreg:
                        continue
                    self.written.setdefault(self.curblock, set()).add(key)
                    if fill == 0 and g is True:
                        st.m[key] = ZERO
                    elif fill == 0 and key in st.m:
                        st.m[key] = self.ite_val(g, ZERO, st.m[key])
                    elif key in st.m or key in self.initial:
                        ty = self.celltys.get(key, 'i32')
                        st.m[key] = self.anyval(ty, 'hv')
                for bb, ln in r.items():
                    if bb < off + n and (ln is None or bb + ln > off):
                        key = ('a', o, bb)
                        self.written.setdefault(self.curblock, set()).add(key)
                        if self.mode == 'safe':
                            st.m[key] = None
                            continue
                        lo = max(0, (off - bb) // 8)
                        hi = (off + n - bb) // 8
                        self.arr_fill(st, key, g, lo, hi, fill)
                continue
            # symbolic: array region only
            key, ix, off = self.key_of(o, bs, e, b, 'double')
            if key[0] == 'c':
                bs2 = self.pick_region(o, off)
                key, ix = ('a', o, bs2), (off - bs2) // 8
            self.written.setdefault(self.curblock, set()).add(key)
            if self.mode == 'safe':
                st.m[key] = None
            else:
                if isinstance(n, int):
                    cnt = n // 8
                else:
                    cnt = self.div8(n)
                self.arr_fill(st, key, g, ix, add(ix, cnt), fill)

    def div8(self, n):
        if isinstance(n, int):
            return n // 8
        s = z3.simplify(n)
        # 8*x pattern
        if z3.is_mul(s) and z3.is_int_value(s.arg(0)) and s.num_args() == 2:
            c = s.arg(0).as_long()
            if c % 8 == 0:
                return mulc(s.arg(1), c // 8)
        if z3.is_add(s):
            parts = []
            for a in s.children():
                if z3.is_int_value(a) and a.as_long() % 8 == 0:
                    parts.append(a.as_long() // 8)
                elif z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.num_args() == 2 and a.arg(0).as_long() % 8 == 0:
                    parts.append(mulc(a.arg(1), a.arg(0).as_long() // 8))
                else:
                    return n / 8
            r = 0
            for q in parts:
                r = add(r, q)
            return r
        return n / 8

    def arr_fill(self, st, key, g, lo, hi, fill):
        a = self.get_arr(st, key)
        j = z3.Int('j!l')
        if fill == 0:
            v = z3.RealVal(0)
        else:
            v = z3.Select(z3.Array(self.fresh_name('hv'), z3.IntSort(), z3.RealSort()), j)
        n = z3.Lambda([j], z3.If(z3.And(zi(lo) <= j, j < zi(hi)), v, z3.Select(a, j)))
        st.m[key] = n if g is True else z3.If(g, n, a)

    def memcpy(self, st, reach, d, s, n, where):
        if isinstance(n, int) and n == 0:
            return
        for (g1, o1, bs1, e1, b1) in d.alts:
            for (g2, o2, bs2, e2, b2) in s.alts:
                g = And(g1, g2)
                gg = And(reach, g)
                if gg is False:
                    continue
                # zero-length copies may use any pointers
                live = gg if isinstance(n, int) else And(gg, cmp('>', n, 0))
                if not self.bounds(st, live, o2, bs2, e2, b2, n, where, False):
                    continue
                if not self.bounds(st, live, o1, bs1, e1, b1, n, where, True):
                    continue
                c1 = isinstance(e1, int) and isinstance(b1, int) and isinstance(n, int)
                c2 = isinstance(e2, int) and isinstance(b2, int)
                r1 = self.plan.regions.get(o1, {})
                r2 = self.plan.regions.get(o2, {})
                if c1 and c2 and n <= 4096:
                    p1, p2 = 8 * e1 + b1, 8 * e2 + b2
                    reg1 = [x for x, ln in r1.items() if x < p1 + n and (ln is None or x + ln > p1)]
                    reg2 = [x for x, ln in r2.items() if x < p2 + n and (ln is None or x + ln > p2)]
                    if not reg1 and not reg2:
                        src = {}
                        for k in list(st.m):
                            if k[0] == 'c' and k[1] == o2 and p2 <= k[2] < p2 + n:
                                src[k[2] - p2] = st.m[k]
                        for k, v in self.initial.items():
                            if k[0] == 'c' and k[1] == o2 and p2 <= k[2] < p2 + n and k[2] - p2 not in src:
                                src[k[2] - p2] = v
                        for k in range(0, n, 4):
                            kk = ('c', o1, p1 + k)
                            if k in src:
                                pass
                            elif self.objs[o2].kind == 'glob' and k % 8 == 0:
                                # typed by the destination
                                ty = self.celltys.get(kk)
                                if ty is None:
                                    continue
                                src[k] = self.glob_cell(self.objs[o2], p2 + k, ty)
                            else:
                                continue
                            self.written.setdefault(self.curblock, set()).add(kk)
                            old = st.m.get(kk)
                            st.m[kk] = src[k] if g is True or old is None else self.ite_val(g, src[k], old)
                        continue
                k1, i1, f1 = self.key_of(o1, bs1, e1, b1, 'double')
                k2, i2, f2 = self.key_of(o2, bs2, e2, b2, 'double')
                if k1[0] == 'c':
                    bb = self.pick_region(o1, f1)
                    k1, i1 = ('a', o1, bb), (f1 - bb) // 8
                if k2[0] == 'c':
                    bb = self.pick_region(o2, f2)
                    k2, i2 = ('a', o2, bb), (f2 - bb) // 8
                self.written.setdefault(self.curblock, set()).add(k1)
                if self.mode == 'safe':
                    st.m[k1] = None
                    continue
                cnt = self.div8(n)
                self.arr_copy(st, k1, i1, k2, i2, cnt, g)

    def arr_copy(self, st, k1, i1, k2, i2, cnt, g):
        A, B = self.get_arr(st, k1), self.get_arr(st, k2)
        j = z3.Int('j!l')
        nn = z3.Lambda([j], z3.If(z3.And(zi(i1) <= j, j < zi(i1) + zi(cnt)), z3.Select(B, j - zi(i1) + zi(i2)), z3.Select(A, j)))
        st.m[k1] = nn if g is True else z3.If(g, nn, A)

    # ------------------------------------------------------------ integers
    def inrange(self, t, n):
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        return And(cmp('>=', t, lo), cmp('<=', t, hi))

    def fits(self, r, n):
        return r[0] >= -(1 << (n - 1)) and r[1] <= (1 << (n - 1)) - 1

    def intres(self, t, r, n, flags, reach, where, op):
        """t: mathematical result with interval r, width n"""
        if isinstance(t, int):
            r = (t, t)
        if self.fits(r, n):
            return self.setr(t, *r) if z3.is_expr(t) else t
        if 'nsw' in flags:
            self.oblig('signed-overflow', reach, self.inrange(t, n), where)
            self.assume(Implies(reach, self.inrange(t, n)))
            if isinstance(t, int):
                return t
            v = t
            self.setr(v, max(r[0], -(1 << (n - 1))), min(r[1], (1 << (n - 1)) - 1))
            return v
        # wrapping arithmetic
        w = z3.Function('wrap%d' % n, z3.IntSort(), z3.IntSort())(zi(t))
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        self.axiom(('wrap', w.get_id()), [z3.And(w >= lo, w <= hi)])
        self.keep.append(w)
        v = ite(self.inrange(t, n), t, w)
        return self.setr(v, lo, hi)

    def mul(self, a, b):
        ra, rb = self.range(a), self.range(b)
        cs = [x * y for x in ra for y in rb]
        r = (min(cs), max(cs))
        if isc(a):
            return mulc(b, a), r
        if isc(b):
            return mulc(a, b), r
        if a.get_id() > b.get_id():
            a, b = b, a
        m = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
        self.keep.append(m)
        (al, ah), (bl, bh) = self.range(a), self.range(b)
        self.axiom(('mul', m.get_id()), [
            z3.Implies(z3.And(a >= 0, b >= 0), m >= 0),
            z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b)),
            # interval (McCormick) envelope of the product
            m - bl * a - al * b + al * bl >= 0,
            m - bh * a - ah * b + ah * bh >= 0,
            m - bh * a - al * b + al * bh <= 0,
            m - bl * a - ah * b + ah * bl <= 0,
            z3.Implies(a == 0, m == 0), z3.Implies(b == 0, m == 0),
            z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a),
        ])
        return m, r

    def divrem(self, a, b, reach, where, n, signed=True):
        self.oblig('division-by-zero', reach, cmp('!=', b, 0), where)
        if isc(a) and isc(b):
            if b == 0:
                return 0, 0
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q, a - q * b
        if isc(b) and b > 0:
            ra = self.range(a, n)
            if ra[0] >= 0:
                q = a / b
            else:
                q = z3.If(a >= 0, a / b, -((-a) / b))
            self.setr(q, int(ra[0] / b) - 1, int(ra[1] / b) + 1)
            r = sub(a, q * b)
            self.setr(r, -(b - 1) if ra[0] < 0 else 0, b - 1)
            return q, r
        az, bz = zi(a), zi(b)
        q = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())(az, bz)
        r = z3.Function('irem', z3.IntSort(), z3.IntSort(), z3.IntSort())(az, bz)
        self.keep += [q, r]
        ab = z3.If(bz >= 0, bz, -bz)
        self.axiom(('dr', r.get_id()), [
            z3.Implies(z3.And(bz != 0, az >= 0), z3.And(r >= 0, r < ab, r <= az)),
            z3.Implies(z3.And(bz != 0, az <= 0), z3.And(r <= 0, r > -ab, r >= az)),
            z3.Implies(z3.And(bz > 0, az >= 0, az < bz), z3.And(r == az, q == 0)),
            z3.Implies(z3.And(bz > 0, az >= bz, az < 2 * bz), z3.And(r == az - bz, q == 1)),
            z3.Implies(z3.And(bz > 0, az >= 2 * bz, az < 3 * bz), z3.And(r == az - 2 * bz, q == 2)),
            z3.Implies(z3.And(bz > 0, az >= 0), z3.And(q >= 0, q <= az)),
            z3.Implies(bz == 1, z3.And(q == az, r == 0)),
            z3.Implies(z3.And(bz > 1, az > 0), q < az),
        ])
        ra, rb = self.range(a, n), self.range(b, n)
        mx = max(abs(ra[0]), abs(ra[1]))
        self.setr(q, -mx - 1, mx)
        self.setr(r, 0 if ra[0] >= 0 else -mx, mx)
        if n == 32:
            pass
        return q, r

    def unsigned(self, a, n):
        if isinstance(a, bool) or z3.is_bool(zz(a)):
            a = ite(a, 1, 0)
        if isinstance(a, int):
            return a % (1 << n)
        lo, hi = self.range(a, n)
        if lo >= 0:
            return a
        v = z3.If(a < 0, a + (1 << n), a)
        return self.setr(v, 0, (1 << n) - 1)

    def to_signed(self, a, n):
        if isinstance(a, int):
            a %= 1 << n
            return a - (1 << n) if a >= 1 << (n - 1) else a
        lo, hi = self.range(a)
        if hi <= (1 << (n - 1)) - 1:
            return a
        v = z3.If(a >= (1 << (n - 1)), a - (1 << n), a)
        return self.setr(v, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def binop(self, i, reach):
        n = bits(i.ty)
        a, b = self.val(i.args[0], i.ty), self.val(i.args[1], i.ty)
        op = i.op
        if n == 1:
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool):
                    return Not(a) if b else a
                if isinstance(a, bool):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported(op + ' i1')
        ra, rb = self.range(a, n), self.range(b, n)
        w = i.line
        if op == 'add':
            return self.intres(add(a, b), (ra[0] + rb[0], ra[1] + rb[1]), n, i.x, reach, w, op)
        if op == 'sub':
            return self.intres(sub(a, b), (ra[0] - rb[1], ra[1] - rb[0]), n, i.x, reach, w, op)
        if op == 'mul':
            t, r = self.mul(a, b)
            return self.intres(t, r, n, i.x, reach, w, op)
        if op == 'shl':
            if isinstance(b, int):
                t, r = self.mul(a, 1 << b)
                return self.intres(t, r, n, i.x, reach, w, op)
            raise Unsupported('shl')
        if op in ('sdiv', 'srem'):
            q, r = self.divrem(a, b, reach, w, n)
            return q if op == 'sdiv' else r
        if op in ('udiv', 'urem'):
            q, r = self.divrem(self.unsigned(a, n), self.unsigned(b, n), reach, w, n)
            return self.to_signed(q if op == 'udiv' else r, n)
        if op == 'ashr' and isinstance(b, int):
            if isinstance(a, int):
                return a >> b
            q = a / (1 << b)
            return self.setr(q, ra[0] >> b, ra[1] >> b)
        if op == 'lshr' and isinstance(b, int):
            u = self.unsigned(a, n)
            if isinstance(u, int):
                return u >> b
            ru = self.range(u, n)
            return self.to_signed(self.setr(u / (1 << b), ru[0] >> b, ru[1] >> b), n)
        if op == 'and' and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
            if isinstance(a, int):
                return a & b
            v = a % (b + 1)
            return self.setr(v, 0, b)
        if op == 'xor' and b == -1:
            return sub(-1, a)
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        f = z3.Function('i' + op + str(n), z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(a), zi(b))
        self.axiom(('bit', f.get_id()), [self.inrange(f, n)])
        self.keep.append(f)
        return self.setr(f, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    # -------------------------------------------------------------- floats
    def rsym(self, t):
        return z3.is_expr(t)

    def fop(self, op, a, b):
        if a.t is None or b.t is None:
            return TOP
        x, y = a.t, b.t
        if op == 'fadd':
            if isc(x) and x == 0:
                return b
            if isc(y) and y == 0:
                return a
            return FV(x + y if isc(x) and isc(y) else zr(x) + zr(y))
        if op == 'fsub':
            if isc(y) and y == 0:
                return a
            return FV(x - y if isc(x) and isc(y) else zr(x) - zr(y))
        if op == 'fmul':
            return FV(self.rmul(x, y))
        if op == 'fdiv':
            return FV(self.rdiv(x, y))
        raise Unsupported(op)

    def rmul(self, x, y):
        if isc(x) and isc(y):
            return x * y
        if isc(x) and x == 1:
            return y
        if isc(y) and y == 1:
            return x
        if isc(x) or isc(y):
            return zr(x) * zr(y)
        return self.env.rmul(self, x, y)

    def rdiv(self, x, y):
        if isc(y) and y != 0:
            return x / y if isc(x) else zr(x) * zr(Fraction(1) / y)
        return self.rmul(x, self.inv(y))

    def inv(self, y):
        y = zr(y)
        t = z3.Function('inv', z3.RealSort(), z3.RealSort())(y)
        self.keep.append(t)
        self.axiom(('inv', t.get_id()), [z3.Implies(y > 0, t > 0), z3.Implies(y < 0, t < 0), z3.Implies(y == 1, t == 1),
                                         z3.Implies(y >= 1, t <= 1)])
        return t

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if a.t is None or b.t is None:
            return z3.Bool(self.fresh_name('fc'))
        if pred in ('ord', 'uno'):
            return pred == 'ord'
        p = pred[1:]
        op = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p]
        x, y = a.t, b.t
        if isc(x) and isc(y):
            return cmp(op, x, y)
        return self.env.fcmp(self, op, zr(x), zr(y))

    def fmath(self, name, args):
        ts = [a.t for a in args]
        if any(t is None for t in ts):
            return TOP
        if name == 'fabs':
            t = ts[0]
            if isc(t):
                return FV(abs(t))
            return FV(z3.If(t >= 0, t, -t))
        if name in ('maxnum', 'fmax'):
            x, y = zr(ts[0]), zr(ts[1])
            return FV(z3.If(x >= y, x, y))
        if name in ('minnum', 'fmin'):
            x, y = zr(ts[0]), zr(ts[1])
            return FV(z3.If(x <= y, x, y))
        if name == 'floor' or name == 'ceil':
            x = ts[0]
            if isc(x):
                import math
                return FV(Fraction(math.floor(x) if name == 'floor' else math.ceil(x)))
            if name == 'floor':
                return FV(z3.ToReal(z3.ToInt(x)))
            return FV(-z3.ToReal(z3.ToInt(-x)))
        f = z3.Function('m_' + name, *([z3.RealSort()] * (len(ts) + 1)))
        x = [zr(t) for t in ts]
        r = f(*x)
        self.keep.append(r)
        if name == 'sqrt':
            x0 = x[0]
            self.axiom(('sqrt', r.get_id()), [z3.Implies(x0 >= 0, r >= 0), z3.Implies(x0 >= 1, z3.And(r >= 1, r <= x0)),
                                              z3.Implies(z3.And(x0 >= 0, x0 <= 1), z3.And(r >= x0, r <= 1)),
                                              z3.Implies(x0 >= 2, 2 * r <= x0 + 2 - z3.Q(1, 2)),
                                              z3.Implies(x0 <= 10 ** 6, r <= 1000)])
        return FV(r)

    def fptosi(self, v, n, reach, where, unsigned=False):
        if v.t is None:
            self.oblig('fp-to-int of data-derived value', reach, False, where, tag='fptosi-data')
            return self.fint(self.fresh_name('fi'), -(1 << (n - 1)), (1 << (n - 1)) - 1)
        t = v.t
        if isc(t):
            r = int(t)
            return r
        s = t
        if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
            r = s.arg(0)
            self.oblig('fp-to-int range', reach, self.inrange(r, n), where)
            return r
        k = self.env.option_int(self, t)
        if k is not None:
            return k
        r = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        self.oblig('fp-to-int range', reach, self.inrange(r, n), where)
        self.assume(Implies(reach, self.inrange(r, n)))
        self.setr(r, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        if z3.is_app(s) and s.decl().name() == 'm_sqrt' and z3.is_app_of(s.arg(0), z3.Z3_OP_TO_REAL):
            lo, hi = self.range(s.arg(0).arg(0))
            if lo < 0:
                self.oblig('square root of a negative number converted to int', reach, cmp('>=', s.arg(0).arg(0), 0), where)
            import math
            self.setr(r, 0, math.isqrt(max(hi, 0)))
            self.assume(Implies(And(reach, cmp('>=', s.arg(0).arg(0), 0)), z3.And(r >= 0, r <= math.isqrt(max(hi, 0)))))
        return r

    # --------------------------------------------------------------- run
    def merge_states(self, edges):
        """edges: list of (cond, St). returns St"""
        if len(edges) == 1:
            return edges[0][1].copy()
        keys = {}
        for c, s in edges:
            for k in s.m:
                keys[k] = 1
        out = St()
        for k in keys:
            vals = []
            for c, s in edges:
                if k in s.m:
                    vals.append((c, s.m[k]))
                else:
                    vals.append((c, self.default(k, edges)))
            v = vals[-1][1]
            alleq = all(self.vsame(v, w) for _, w in vals)
            if not alleq:
                if any(isinstance(w, PV) for _, w in vals):
                    vv = [(c, NULLPV if w is ZERO else w) for c, w in vals]
                    if all(isinstance(w, PV) for _, w in vv):
                        v = self.merge_pv(vv)
                    else:
                        v = PV([(True, '?', None, 0, 0)])
                else:
                    for c, w in reversed(vals[:-1]):
                        if isinstance(v, FV) != isinstance(w, FV) and v is not ZERO and w is not ZERO and v is not None and w is not None:
                            v = self.ffresh('mx')
                            continue
                        v = self.ite_val(c, w, v)
            out.m[k] = v
        return out

    def vsame(self, a, b):
        if a is b:
            return True
        if isinstance(a, FV) and isinstance(b, FV):
            return a.t is not None and b.t is not None and same(a.t, b.t)
        if isinstance(a, PV) and isinstance(b, PV):
            if len(a.alts) != len(b.alts):
                return False
            for x, y in zip(a.alts, b.alts):
                if x[1] != y[1] or x[2] != y[2] or not same(x[3], y[3]) or not same(x[4], y[4]) or not same(x[0], y[0]):
                    return False
            return True
        if isinstance(a, (FV, PV, list)) or isinstance(b, (FV, PV, list)) or a is None or b is None or a is ZERO or b is ZERO:
            return False
        return same(a, b)

    def default(self, k, edges=None):
        if k[0] == 'c':
            v = self.initial.get(k)
            if v is None:
                ty = self.celltys.get(k)
                if ty is None:
                    for c, s in edges or ():
                        if k in s.m:
                            w = s.m[k]
                            ty = 'double' if isinstance(w, FV) else ('ptr' if isinstance(w, PV) else 'i32')
                            if w is ZERO:
                                ty = None
                                continue
                            break
                if ty is None:
                    return ZERO
                v = self.init_cell(k, ty)
                self.initial[k] = v
            return v
        if k[0] == 'a':
            if self.mode == 'safe':
                return None
            return self.get_arr(St(), k)
        if k[0] in ('freed', 'alloc'):
            return False
        return self.env.ghost_default(self, k)

    def phivals(self, b, pred):
        out = {}
        for i in self.fn.blocks[b].instrs:
            if i.op != 'phi':
                break
            out[i.res] = self.val(i.args[i.x.index(pred)], i.ty)
        return out

    def phis(self, b):
        return [i for i in self.fn.blocks[b].instrs if i.op == 'phi']

    def run(self):
        cfg = self.cfg
        self.initial = {}
        st0 = St()
        self.env.setup(self, st0)
        entry = cfg.rpo[0]
        edges = {b: [] for b in cfg.rpo}
        edges[entry].append((True, st0, None))
        self.edges = edges
        for b in cfg.rpo:
            inc = [e for e in edges[b] if e[0] is not False]
            if not inc:
                self.reach[b] = False
                continue
            if b in cfg.loop:
                self.header(b, inc)
            else:
                self.join(b, inc)
            self.block(b)
        for h in cfg.headers:
            self.close_loop(h)
        return self

    def name_reach(self, b, r):
        if isinstance(r, bool) or z3.is_const(r):
            return r
        v = z3.Bool('%srch.%s' % (self.prefix, b) if not self.depth else self.fresh_name('rch'))
        self.assume(v == r)
        return v

    def join(self, b, inc):
        r = Or(*[c for c, s, p in inc])
        r = self.name_reach(b, r)
        self.reach[b] = r
        st = self.merge_states([(c, s) for c, s, p in inc])
        for i in self.phis(b):
            vs = [(c, self.val(i.args[i.x.index(p)], i.ty)) for c, s, p in inc]
            self.newphi = None
            self.R[i.res + '\0'] = self.merge_vals(vs)
        for i in self.phis(b):
            self.R[i.res] = self.R.pop(i.res + '\0')
        self.st = st

    def merge_vals(self, vs):
        if any(isinstance(v, PV) for c, v in vs):
            return self.merge_pv(vs) if len(vs) > 1 else vs[0][1]
        v = vs[-1][1]
        for c, w in reversed(vs[:-1]):
            v = self.ite_val(c, w, v)
        return v

    def header(self, h, inc):
        r = Or(*[c for c, s, p in inc])
        st = self.merge_states([(c, s) for c, s, p in inc])
        ent = {}
        for i in self.phis(h):
            vs = [(c, self.val(i.args[i.x.index(p)], i.ty)) for c, s, p in inc]
            ent[i.res] = self.merge_vals(vs)
        r = self.name_reach(h, r)
        self.hentry[h] = (r, st, ent)
        self.curheader = h
        # learn pointer alternatives
        for i in self.phis(h):
            if i.ty == 'ptr':
                self.learn_ptr((h, i.res), ent[i.res])
        mods = self.plan.mods.setdefault(h, set())
        for k in mods:
            v = st.m.get(k)
            if isinstance(v, PV):
                self.learn_ptr((h, k), v)
        # invariants hold on entry
        new = {}
        self.view_entry(h, r, st, ent)
        nst = st.copy()
        for i in self.phis(h):
            self.R[i.res] = self.havoc_val('%s%s.%s' % (self.prefix, h, i.res), i.ty, (h, i.res))
        for k in sorted(mods, key=str):
            self.havoc_key(h, k, nst, st)
        self.reach[h] = r
        self.st = nst
        self.hst[h] = nst.copy()
        self.env.at_header(self, h, r, nst)
        for inv in self.invs.get(h, ()):
            f = inv.formula(self, h, nst, self.R)
            if f is not None:
                self.ev.append(('I', inv, zb(Implies(r, f))))

    def view_entry(self, h, r, st, ent):
        old = {k: self.R.get(k) for k in ent}
        self.R.update(ent)
        for inv in self.invs.get(h, ()):
            f = inv.formula(self, h, st, self.R)
            if f is not None:
                o = self.oblig('invariant-entry', r, f, h, tag=inv)
        for k in ent:
            if old[k] is None:
                self.R.pop(k)
            else:
                self.R[k] = old[k]

    def learn_ptr(self, key, pv):
        s = self.plan.ptr.setdefault(key, set())
        if not isinstance(pv, PV):
            return
        for (g, o, bs, e, b) in pv.alts:
            if o == '?':
                s.add(('?', None, 0))
                continue
            if o is None:
                it = (None, None, 0)
            else:
                if bs is None and o in self.plan.structs and isinstance(e, int) and isinstance(b, int):
                    at = self.in_array(o, 8 * e + b)
                    if at is not None:
                        bs = self.pick_region(o, at)
                it = (o, bs, b if isinstance(b, int) else None)
            if it not in s:
                s.add(it)
                self.replan = True

    def int_doubles(self):
        """floating-point values that only ever hold converted integers"""
        if hasattr(self.fn, '_intd'):
            return self.fn._intd
        cand = {}
        for b in self.cfg.rpo:
            for i in self.fn.blocks[b].instrs:
                if i.res is not None and i.ty == 'double' and i.op in ('phi', 'select', 'fadd', 'fsub') or i.op in ('sitofp',):
                    cand[i.res] = i
        ok = set(cand)
        def good(v):
            if v[0] == 'r':
                return v[1] in ok
            return v[0] == 'f' and v[1] == v[1] and abs(v[1]) < 2 ** 31 and v[1] == int(v[1])
        ch = True
        while ch:
            ch = False
            for r in list(ok):
                i = cand[r]
                if i.op == 'sitofp':
                    continue
                a = i.args[1:] if i.op == 'select' else i.args
                if not all(good(v) for v in a):
                    ok.discard(r)
                    ch = True
        self.fn._intd = ok
        return ok

    def havoc_val(self, name, ty, key):
        if ty == 'double' and isinstance(key[1], str) and key[1] in self.int_doubles():
            return FV(z3.ToReal(z3.Int(name)))
        if ty == 'double':
            return TOP if self.mode == 'safe' else FV(z3.Real(name))
        if ty == 'ptr':
            alts = sorted(self.plan.ptr.get(key, ()), key=str)
            # the same object with and without region tag -> prefer the tag
            objs = {}
            for o, bs, b in alts:
                objs.setdefault((o, b), set()).add(bs)
            out = []
            items = []
            for (o, b), bss in objs.items():
                bs = max((x for x in bss if x is not None), default=None)
                if o is not None and o != '?' and bs is None:
                    bs = self.pick_region(o, 0) if True else None
                items.append((o, bs, b))
            n = len(items)
            sel = z3.Int(name + '?sel') if n > 1 else None
            for k, (o, bs, b) in enumerate(items):
                g = True if n == 1 else (sel == k if k < n - 1 else z3.And(*[sel != q for q in range(n - 1)]))
                if o is None or o == '?':
                    out.append((g, o, None, 0, 0))
                    continue
                e = z3.Int(name if n == 1 else '%s?%d' % (name, k))
                self.setr(e, -(1 << 60), 1 << 60)
                if b is None:
                    b = z3.Int(name + '?b%d' % k)
                out.append((g, o, bs, e, b))
            return PV(out)
        if ty == 'i1':
            return z3.Bool(name)
        if not isinstance(ty, str):
            return [None] * len(self.mod.elems(ty))
        n = bits(ty)
        return self.fint(name, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def havoc_key(self, h, k, nst, st):
        nm = '%s%s.%s' % (self.prefix, h, '/'.join(map(str, k)))
        if k[0] == 'c':
            ty = self.celltys.get(k) or self.plan.__dict__.setdefault('celltys', {}).get(k)
            if ty is None:
                v = st.m.get(k)
                ty = 'double' if isinstance(v, FV) else ('ptr' if isinstance(v, PV) else ('i32' if v is not None and v is not ZERO else None))
            if ty is None:
                # never typed: only zero-filled
                return
            nst.m[k] = self.havoc_val(nm, ty, (h, k))
        elif k[0] == 'a':
            nst.m[k] = None if self.mode == 'safe' else self.env.havoc_array(self, h, k, nm)
        elif k[0] in ('freed', 'alloc'):
            nst.m[k] = z3.Bool(nm)
        else:
            nst.m[k] = self.env.havoc_ghost(self, h, k, nm)

    def close_loop(self, h):
        mods = set()
        for b in self.cfg.loop[h]:
            mods |= self.written.get(b, set())
        if not mods <= self.plan.mods[h] if h in self.plan.mods else mods:
            self.plan.mods.setdefault(h, set()).update(mods)
            self.replan = True
        self.plan.__dict__.setdefault('celltys', {}).update(self.celltys)

    def edge(self, b, t, cond):
        if cond is False:
            return
        if (b, t) in self.cfg.back:
            vals = self.phivals(t, b)
            for i in self.phis(t):
                if i.ty == 'ptr':
                    self.learn_ptr((t, i.res), vals[i.res])
            for k in self.plan.mods.get(t, ()):
                v = self.st.m.get(k)
                if isinstance(v, PV):
                    self.learn_ptr((t, k), v)
            self.latch.setdefault(t, []).append((cond, self.st.copy(), vals, b))
            self.back_obligs(t, cond, self.st, vals)
            return
        self.edges[t].append((cond, self.st.copy(), b))

    def back_obligs(self, h, cond, st, vals):
        old = {k: self.R.get(k) for k in vals}
        self.R.update(vals)
        for inv in self.invs.get(h, ()):
            f = inv.formula(self, h, st, self.R)
            if f is not None:
                self.oblig('invariant-preserved', cond, f, h, tag=inv)
        Rl = self.R
        Rh = dict(Rl)
        Rh.update(old)
        self.rank_oblig(h, cond, st, Rl, Rh)
        self.env.at_latch(self, h, cond, st, vals, old)
        self.R.update(old)

    def rank_oblig(self, h, cond, st, Rl, Rh):
        rk = self.ranks.get(h)
        if rk is None:
            return
        if rk == 'none':
            self.oblig('termination', cond, False, h)
            return
        alts = []
        from infer import vget, NA
        for cs, c in rk:
            try:
                d0, d1 = c, c
                for v, k in cs:
                    d0 = add(d0, mulc(vget(self, v, self.hst[h], Rh), k))
                    d1 = add(d1, mulc(vget(self, v, st, Rl), k))
            except NA:
                continue
            alts.append((And(cmp('>', d0, d1), cmp('>=', d0, 0)), (cs, c)))
        self.oblig('termination', cond, alts[0][0] if alts else False, h, tag=('rank', h, [a for a, _ in alts]))

    def block(self, b):
        self.curblock = b
        reach = self.reach[b]
        ins = self.fn.blocks[b].instrs
        for i in ins:
            op = i.op
            if op == 'phi':
                continue
            if op == 'br':
                if i.args:
                    c = self.val(i.args[0], 'i1')
                    if i.x[0] == i.x[1]:
                        self.edge(b, i.x[0], reach)
                    else:
                        self.edge(b, i.x[0], And(reach, c))
                        self.edge(b, i.x[1], And(reach, Not(c)))
                else:
                    self.edge(b, i.x[0], reach)
                return
            if op == 'switch':
                v = self.val(i.args[0], i.ty)
                others = []
                tg = {}
                for cv, t in i.x[1]:
                    c = cmp('==', v, cv)
                    others.append(Not(c))
                    tg[t] = Or(tg.get(t, False), c)
                d = i.x[0]
                tg[d] = Or(tg.get(d, False), And(*others))
                for t, c in tg.items():
                    self.edge(b, t, And(reach, c))
                return
            if op == 'ret':
                v = self.val(i.args[0], i.ty) if i.args else None
                self.rets.append((reach, self.st.copy(), v))
                return
            if op == 'unreachable':
                self.oblig('unreachable-code', reach, False, b)
                return
            if op == 'resume':
                self.exc.append((reach, self.st.copy(), i.line))
                return
            if op == 'invoke':
                self.thrown = False
                if self.lenient:
                    v = self.lax(i, reach)
                    t = z3.Bool(self.fresh_name('thrown'))
                    self.edge(b, i.x['normal'], And(reach, Not(t)))
                    self.edge(b, i.x['unwind'], And(reach, t))
                    return
                v = self.call(i, reach)
                t = self.thrown
                if i.res is not None:
                    self.R[i.res] = v
                if v is NORETURN:
                    t = True
                self.edge(b, i.x['normal'], And(reach, Not(t)))
                self.edge(b, i.x['unwind'], And(reach, t))
                return
            v = self.lax(i, reach) if self.lenient else self.instr(i, reach)
            if v is NORETURN:
                return
            if i.res is not None:
                self.R[i.res] = v
        raise Unsupported('block without terminator')

    lenient = False

    def lax(self, i, reach):
        """over-approximation used where only the control flow matters: memory
        other than the options holds anything, unknown calls do anything"""
        if i.op in ('store', 'fence'):
            return None
        if i.op == 'load':
            p = self.R.get(i.args[0][1]) if i.args[0][0] == 'r' else None
            if isinstance(p, PV) and all(a[1] is not None and a[1] in self.objs and self.objs[a[1]].kind == 'opt' for a in p.alts):
                return self.load(self.st, reach, p, i.ty, i.line)
            v = self.anyty(i.ty, 'mem')
        elif i.op in ('call', 'invoke'):
            c = i.x['callee'][1:]
            v = None
            if self.env.lib.match_call(c) and self.env.lib.match_call(c)[1] == 'start':
                v = self.call(i, reach)
            elif c.split('.')[0] == 'llvm' and i.ty == 'double':
                v = self.call(i, reach)
            elif c == '__assert_fail' or c in ('abort', '__cxa_rethrow', '__cxa_throw', '_ZSt9terminatev'):
                v = None
            elif i.res is not None:
                v = self.anyty(i.ty, 'call')
        else:
            try:
                v = self.instr(i, reach)
            except (Unsupported, AttributeError, TypeError, KeyError, ValueError):
                v = self.anyty(i.ty, 'any')
        if i.res is not None:
            self.R[i.res] = v
        return v

    def anyty(self, ty, hint):
        if ty in ('double', 'ptr') or ty and ty[0] == 'i' and ty[1:].isdigit():
            return self.anyval(ty, hint)
        return [self.anyval('ptr', hint), self.anyval('i32', hint)]

    def instr(self, i, reach):
        op = i.op
        if op == 'load':
            return self.load(self.st, reach, self.val(i.args[0]), i.ty, i.line)
        if op == 'store':
            self.store(self.st, reach, self.val(i.args[1]), i.ty, self.val(i.args[0], i.ty), i.line)
            return None
        if op == 'getelementptr':
            return self.gep(self.val(i.args[0]), i.x[0], [self.val(a, t) for a, t in zip(i.args[1:], i.x[1])], i.x[1])
        if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'ashr', 'lshr'):
            return self.binop(i, reach)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.fop(op, self.val(i.args[0]), self.val(i.args[1]))
        if op == 'fneg':
            a = self.val(i.args[0])
            return TOP if a.t is None else FV(-a.t)
        if op == 'icmp':
            return self.icmp(i.x[0], i.x[1], self.val(i.args[0], i.x[1]), self.val(i.args[1], i.x[1]), reach, i.line)
        if op == 'fcmp':
            return self.fcmp(i.x[0], self.val(i.args[0]), self.val(i.args[1]))
        if op == 'select':
            c = self.val(i.args[0], 'i1')
            a, b = self.val(i.args[1], i.ty), self.val(i.args[2], i.ty)
            return self.ite_val(c, a, b)
        if op == 'sext':
            v = self.val(i.args[0], i.x)
            if i.x == 'i1':
                return ite(v, -1, 0)
            return v
        if op == 'zext':
            v = self.val(i.args[0], i.x)
            if i.x == 'i1':
                r = ite(v, 1, 0)
                return self.setr(r, 0, 1) if z3.is_expr(r) else r
            return self.unsigned(v, bits(i.x))
        if op == 'trunc':
            v = self.val(i.args[0], i.x)
            n = bits(i.ty)
            if n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                lo, hi = self.range(v)
                return v == 1 if (lo, hi) == (0, 1) else z3.Bool(self.fresh_name('tr'))
            r = self.range(v)
            if self.fits(r, n):
                return v
            return self.intres(v, r, n, set(), reach, i.line, 'trunc')
        if op == 'sitofp':
            v = self.val(i.args[0], i.x)
            return FV(Fraction(v) if isinstance(v, int) else z3.ToReal(v))
        if op == 'uitofp':
            v = self.unsigned(self.val(i.args[0], i.x), bits(i.x))
            return FV(Fraction(v) if isinstance(v, int) else z3.ToReal(v))
        if op == 'fptosi':
            return self.fptosi(self.val(i.args[0]), bits(i.ty), reach, i.line)
        if op == 'fptoui':
            v = self.val(i.args[0])
            r = self.fptosi(v, bits(i.ty) + 1, reach, i.line)
            self.oblig('fp-to-int range', reach, cmp('>=', r, 0), i.line)
            return r
        if op == 'ptrtoint':
            p = self.val(i.args[0])
            out = None
            for (g, o, bs, e, b) in reversed(p.alts):
                v = 0 if o is None else z3.Int('addr:' + str(o)) + zi(add(mulc(e, 8), b))
                out = v if out is None else ite(g, v, out)
            return out
        if op == 'alloca':
            on = 'A:' + i.res
            n = self.val(i.args[0], 'i64')
            sz = mulc(n, self.mod.sizeof(i.ty)) if not isinstance(n, int) else n * self.mod.sizeof(i.ty)
            self.objs[on] = Obj(on, sz, 'stack')
            return PV([(True, on, None, 0, 0)])
        if op == 'extractvalue':
            v = self.val(i.args[0])
            return v[i.x[0]]
        if op == 'insertvalue':
            v = self.val(i.args[0])
            v = list(v) if v is not None else [None, None]
            v[i.x[0]] = self.val(i.args[1], 'i32')
            return v
        if op == 'landingpad':
            # selector: the exceptions thrown by the allocation functions are
            # std::bad_alloc; a catch clause for it (or catch-all) matches
            return [NULLPV, 1]
        if op == 'call':
            self.thrown = False
            v = self.call(i, reach)
            if self.thrown is not False:
                self.exc.append((And(reach, self.thrown), self.st.copy(), i.line))
                self.assume(Implies(reach, Not(self.thrown)))
            return v
        if op == 'freeze':
            return self.val(i.args[0], i.ty)
        raise Unsupported('op ' + op)

    def icmp(self, p, ty, a, b, reach=True, where=''):
        if ty == 'ptr':
            out = False
            for (g1, o1, bs1, e1, b1) in a.alts:
                for (g2, o2, bs2, e2, b2) in b.alts:
                    g = And(g1, g2)
                    if g is False:
                        continue
                    if o1 == '?' or o2 == '?':
                        r = z3.Bool(self.fresh_name('pc'))
                    elif p in ('eq', 'ne'):
                        if o1 is None and o2 is None:
                            r = True
                        elif o1 != o2:
                            r = False
                        else:
                            r = cmp('==', add(mulc(e1, 8), b1), add(mulc(e2, 8), b2)) if not (b1 == 0 and b2 == 0) else cmp('==', e1, e2)
                        if p == 'ne':
                            r = Not(r)
                    else:
                        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]]
                        if o1 == o2:
                            r = cmp(op, add(mulc(e1, 8), b1), add(mulc(e2, 8), b2))
                        else:
                            r = z3.Bool(self.fresh_name('pc'))
                    out = Or(out, And(g, r))
            return out
        if ty == 'i1':
            if p in ('eq', 'ne'):
                if isinstance(b, bool):
                    r = a if b else Not(a)
                elif isinstance(a, bool):
                    r = b if a else Not(b)
                else:
                    r = a == b
                return Not(r) if p == 'ne' else r
            raise Unsupported('icmp i1 ' + p)
        n = bits(ty)
        if p[0] == 'u':
            a, b = self.unsigned(a, n), self.unsigned(b, n)
        op = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p if p in ('eq', 'ne') else p[1:]]
        return cmp(op, a, b)

    # --------------------------------------------------------------- calls
    def alloc(self, site, size, kind, reach, where, throws=False, zero=False, nothrow=True):
        on = 'H:' + site
        if any(self.curblock in body for body in self.cfg.loop.values()):
            raise Unsupported('allocation inside a loop')
        if on in self.objs and ('alloc', on) in self.st.m and self.st.m[('alloc', on)] is not False:
            raise Unsupported('allocation site %s reached twice' % site)
        ob = Obj(on, size, 'heap', zero)
        self.objs[on] = ob
        if zero is False:
            pass
        fail = z3.Bool('%sfail:%s' % (self.prefix, site)) if self.allocfail else False
        if fail is not False:
            self.failflags.append((And(reach, fail), on))
            # negative / huge requests fail
            if not isinstance(size, int):
                self.assume(Implies(And(reach, Not(fail)), cmp('>=', size, 0)))
        else:
            if not isinstance(size, int):
                pass
        # forget stale contents of a re-executed site
        for k in list(self.st.m):
            if len(k) > 1 and k[1] == on:
                del self.st.m[k]
        self.st.m[('alloc', on)] = Not(fail)
        self.st.m[('freed', on)] = False
        w = self.written.setdefault(self.curblock, set())
        w.add(('alloc', on)); w.add(('freed', on))
        self.env.on_alloc(self, on, size, reach)
        pv = PV([(True, on, None, 0, 0)])
        if fail is False:
            return pv
        if throws:
            self.thrown = fail
            return pv
        return PV([(Not(fail), on, None, 0, 0), (fail, None, None, 0, 0)])

    def free(self, p, reach, where):
        for (g, o, bs, e, b) in p.alts:
            gg = And(reach, g)
            if gg is False or o is None:
                continue
            if o == '?':
                self.oblig('free of unknown pointer', gg, False, where)
                continue
            ob = self.objs[o]
            if ob.kind not in ('heap', 'stream', 'sub'):
                self.oblig('free of non-heap object', gg, False, where)
                continue
            self.oblig('free-at-base', gg, cmp('==', add(mulc(e, 8), b), 0), where)
            k = ('freed', o)
            old = self.st.m.get(k, False)
            self.oblig('double-free', gg, Not(old), where)
            self.st.m[k] = self.ite_val(g, True, old) if g is not True else True
            self.written.setdefault(self.curblock, set()).add(k)

    def call(self, i, reach):
        c = i.x['callee']
        if c[0] == '%':
            if self.env.table is not None:
                return self.env.indirect(self, self.R[c[1:]], [self.val(v, t) for v, t in zip(i.args, i.x['tys'])], reach, i)
            raise Unsupported('indirect call')
        c = c[1:]
        A = [self.val(v, t) for v, t in zip(i.args, i.x['tys'])]
        w = i.line
        if c.startswith('llvm.'):
            b = c.split('.')[1]
            if b in ('fmuladd', 'fma'):
                return self.fop('fadd', self.fop('fmul', A[0], A[1]), A[2])
            if b in SUPPORTED_MATH1 or b in ('fabs', 'maxnum', 'minnum', 'floor', 'ceil', 'pow', 'trunc', 'round'):
                return self.fmath(b, A)
            if b == 'memset':
                self.havoc_range(self.st, A[0], A[2], w, reach, fill=0 if A[1] == 0 else None)
                return None
            if b in ('memcpy', 'memmove'):
                self.memcpy(self.st, reach, A[0], A[1], A[2], w)
                return None
            if b == 'umul':
                t, r = self.mul(self.unsigned(A[0], 64), self.unsigned(A[1], 64))
                ov = cmp('>=', t, 1 << 64) if r[1] >= 1 << 64 else False
                if r[1] >= 1 << 63 or r[0] < 0:
                    t = self.intres(t, r, 64, set(), reach, w, 'umul')
                return [t, ov]
            if b == 'abs':
                v = iabs(A[0])
                lo, hi = self.range(A[0])
                return self.setr(v, 0, max(abs(lo), abs(hi))) if z3.is_expr(v) else v
            if b in ('smax', 'smin'):
                return self.ite_val(cmp('>=' if b == 'smax' else '<=', A[0], A[1]), A[0], A[1])
            if b == 'eh':
                return 1
            if b == 'assume':
                return None
            if b in ('lifetime', 'experimental', 'dbg', 'stacksave', 'stackrestore', 'va_start', 'va_end'):
                return None
            raise Unsupported(c)
        if c in SUPPORTED_MATH1 or c in ('fabs', 'fmax', 'fmin', 'floor', 'ceil', 'pow', 'atan2', 'trunc', 'round'):
            return self.fmath(c, A)
        site = i.res
        if c == 'malloc':
            return self.alloc(site, A[0], 'malloc', reach, w)
        if c == 'calloc':
            t, r = self.mul(self.unsigned(A[0], 64), self.unsigned(A[1], 64))
            return self.alloc(site, t, 'malloc', reach, w, zero=True)
        if c in ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            return self.alloc(site, A[0], 'new', reach, w)
        if c in ('_Znwm', '_Znam'):
            return self.alloc(site, A[0], 'new', reach, w, throws=True)
        if c == 'realloc':
            return self.realloc(site, A, reach, w)
        if c in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvRKSt9nothrow_t', '_ZdlPvm', '_ZdaPvm', '_ZdaPvRKSt9nothrow_t'):
            self.free(A[0], reach, w)
            return None
        if c == '__assert_fail':
            self.oblig('assertion', reach, False, w)
            return NORETURN
        if c == '__cxa_begin_catch':
            return NULLPV
        if c == '__cxa_end_catch':
            return None
        if c == '__clang_call_terminate' or c == '_ZSt9terminatev':
            self.oblig('std::terminate', reach, False, w)
            return NORETURN
        if c == '__cxa_rethrow':
            self.thrown = True
            return None
        if c.startswith('_ZSt') and 'throw' in c:
            self.thrown = True
            self.throws_std = getattr(self, 'throws_std', []) + [(reach, w)]
            return None
        r = self.env.call(self, c, A, i, reach)
        if r is not NotImplemented:
            return r
        for m in self.mods:
            if c in m.funcs:
                return self.inline(m, m.funcs[c], A, reach)
        raise Unsupported('call ' + c)

    def realloc(self, site, A, reach, w):
        p = A[0]
        if len(p.alts) > 2:
            raise Unsupported('realloc')
        on = 'H:' + site
        res = self.alloc(site, A[1], 'malloc', reach, w)
        fail = self.st.m[('alloc', on)]
        for (g, o, bs, e, b) in p.alts:
            gg = And(reach, g)
            if gg is False or o is None:
                continue
            self.oblig('free-at-base', gg, cmp('==', add(mulc(e, 8), b), 0), w)
            k = ('freed', o)
            old = self.st.m.get(k, False)
            self.oblig('double-free', gg, Not(old), w)
            self.st.m[k] = self.ite_val(And(g, fail), True, old)
            self.written.setdefault(self.curblock, set()).add(k)
            for kk, v in list(self.st.m.items()):
                if kk[0] in ('c', 'a') and kk[1] == o:
                    nk = (kk[0], on, kk[2])
                    self.st.m[nk] = v
                    self.written.setdefault(self.curblock, set()).add(nk)
            for kk, v in list(self.initial.items()):
                if kk[0] == 'c' and kk[1] == o and ('c', on, kk[2]) not in self.st.m:
                    self.st.m[('c', on, kk[2])] = v
                    self.written.setdefault(self.curblock, set()).add(('c', on, kk[2]))
            if self.objs[o].zero and isinstance(self.objs[o].size, int):
                # untouched zero cells of the source stay zero
                for off in range(0, self.objs[o].size, 4):
                    nk = ('c', on, off)
                    if nk not in self.st.m:
                        self.st.m[nk] = ZERO
                        self.written.setdefault(self.curblock, set()).add(nk)
            for rb, ln in self.plan.regions.get(o, {}).items():
                if rb not in self.plan.regions.setdefault(on, {}):
                    self.plan.regions[on][rb] = ln
                    self.replan = True
        return res

    def inline(self, m, f, A, reach):
        """execute a loop-free callee in place"""
        if self.depth > 14:
            raise Unsupported('recursion ' + f.name)
        cfg = ir.CFG(f) if not hasattr(f, '_cfg') else f._cfg
        f._cfg = cfg
        if cfg.headers:
            raise Unsupported('call to %s (has loops, no contract)' % f.name)
        sv = (self.fn, self.cfg, self.R, self.edges, self.reach, self.rets, self.mod, self.curblock)
        blk = self.curblock
        self.fn, self.cfg, self.mod = f, cfg, m
        self.R = {n: a for (t, n), a in zip(f.params, A)}
        self.reach, self.rets = {}, []
        self.edges = {b: [] for b in cfg.rpo}
        self.edges[cfg.rpo[0]].append((reach, self.st, None))
        self.depth += 1
        th = False
        wr = self.written
        self.written = {}
        for b in cfg.rpo:
            inc = [e for e in self.edges[b] if e[0] is not False]
            if not inc:
                continue
            self.join(b, inc)
            self.block(b)
        self.depth -= 1
        keys = set()
        for s in self.written.values():
            keys |= s
        self.written = wr
        self.written.setdefault(blk, set()).update(keys)
        rets = self.rets
        (self.fn, self.cfg, self.R, self.edges, self.reach, self.rets, self.mod, self.curblock) = sv
        if not rets:
            self.st = self.st.copy()
            return None
        self.st = self.merge_states([(c, s) for c, s, v in rets])
        if rets[0][2] is None:
            return None
        return self.merge_vals([(c, v) for c, s, v in rets])


class _NR:
    pass


NORETURN = _NR()
