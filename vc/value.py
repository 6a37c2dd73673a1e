"""P07: functional correctness of the batch and reference functions.

The definition of an indicator (specs.py) is read symbolically: a recursion or
a running sum becomes an uninterpreted function of the bar number with its
defining equation.  The real function is executed symbolically over exact
reals with loop invariants that state, for every floating-point variable a
loop carries, which ghost value it holds (found from traces, proved here), and
every store to output k at element e carries the obligation
    value == definition_k(start + e).
Options that are periods range over all whole numbers of the documented
domain, the others over all reals; the number of bars is unbounded."""
import os, random, time, math, itertools, z3
import verify, solve, batch, infer, seq, specs, interp, ir, poly, content
from content import Content, Map
from fractions import Fraction
from terms import *
from execu import *
from traces import make_inputs, option_samples
from infer import vget, NA, Lin

KINDS = {'callee-domain', 'output-value', 'value-entry', 'value-preserved', 'start-value', 'invariant-entry', 'invariant-preserved'}
only = lambda o: o.kind in KINDS
R, I = z3.RealSort(), z3.IntSort()


sub_ = sub


class IOpt(z3.ArithRef):
    """option (or number made of options) in a definition"""
    def __hash__(self): return self.get_id()
    def plain(self): return z3.ArithRef(self.ast, self.ctx)
    def real(self):
        t = self.plain()
        return z3.ToReal(t) if z3.is_int(t) else t
    def rv(self): return wrap(self.real())
    def op(self, f, o, rev=False, real=False):
        if isinstance(o, seq.Seq) or not isinstance(o, (int, float)) and not z3.is_expr(o):
            return NotImplemented
        if real or isinstance(o, float) or z3.is_real(self) or z3.is_expr(o) and z3.is_real(o):
            a, b = self.real(), zr(poly.snap(Fraction(o))) if not z3.is_expr(o) else o.real() if isinstance(o, IOpt) else zr(o)
        else:
            a, b = self.plain(), z3.IntVal(o) if isinstance(o, int) else z3.ArithRef(o.ast, o.ctx)
        return wrap(f(b, a) if rev else f(a, b))
    def __add__(s, o): return s.op(lambda a, b: a + b, o)
    def __radd__(s, o): return s.op(lambda a, b: a + b, o, True)
    def __sub__(s, o): return s.op(lambda a, b: a - b, o)
    def __rsub__(s, o): return s.op(lambda a, b: a - b, o, True)
    def __mul__(s, o): return s.op(lambda a, b: a * b, o)
    def __rmul__(s, o): return s.op(lambda a, b: a * b, o, True)
    def __truediv__(s, o): return s.op(lambda a, b: a / b, o, False, True)
    def __rtruediv__(s, o): return s.op(lambda a, b: a / b, o, True, True)
    def __floordiv__(s, o): return wrap(s.plain() / o)
    def __mod__(s, o): return wrap(s.plain() % o)
    def __neg__(s): return wrap(-s.plain())
    def __pow__(s, o):
        r = s
        for _ in range(o - 1):
            r = r * s
        return r
    def cmp(self, f, o):
        if isinstance(o, seq.Seq):
            return NotImplemented
        if isinstance(o, float) or z3.is_real(self) or z3.is_expr(o) and z3.is_real(o):
            return f(self.real(), zr(poly.snap(Fraction(o))) if not z3.is_expr(o) else zr(o))
        return f(self.plain(), o)
    def __lt__(s, o): return s.cmp(lambda a, b: a < b, o)
    def __le__(s, o): return s.cmp(lambda a, b: a <= b, o)
    def __gt__(s, o): return s.cmp(lambda a, b: a > b, o)
    def __ge__(s, o): return s.cmp(lambda a, b: a >= b, o)


def wrap(t):
    return IOpt(t.ast, t.ctx)


def osym(op, *a):
    a = [zr(Fraction(x)) if isinstance(x, (int, float)) else seq.rv(x) for x in a]
    return wrap(z3.Function('m_' + op, *([R] * (len(a) + 1)))(*a))


def intlin(t):
    """integer term equal to a real one that is made of integers, or None"""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        a = [intlin(c) for c in t.children()]
        if any(x is None for x in a):
            return None
        r = a[0]
        for x in a[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
        return r
    return None


def nstr(v):
    if not z3.is_expr(v):
        return str(v)
    if isinstance(v, IOpt):
        v = v.plain()
    return ' '.join(str(z3.simplify(v, som=True)).split())


class SymSpec:
    """the definition over symbolic options"""
    def __init__(self, name, nin, pin=None):
        f, kinds, kw = specs.SPECS[name]
        self.kinds, self.kw, self.pin = kinds, kw, pin or {}
        o = []
        for k, c in enumerate(kinds):
            if k in self.pin:
                o.append(self.pin[k])
            elif c == 'i':
                t = z3.Int('iopt%d' % k)
                if kw.get('even') and k == 0:
                    t = 2 * z3.Int('hopt%d' % k)
                o.append(IOpt(t.ast, t.ctx))
            else:
                o.append(wrap(z3.Real('opt%d' % k)))
        self.opts = o
        old = seq.OSYM
        seq.OSYM = osym
        specs.EXACT = True
        keep = len(seq.NODES)
        try:
            self.ins = [seq.In(k) for k in range(nin)]
            self.outs = f(self.ins, *o)
        except seq.Undefined:
            self.outs = None            # the definition does not cover these options
            return
        except (TypeError, z3.Z3Exception, AttributeError) as e:
            raise Unsupported('definition is not symbolic: %s' % e)
        finally:
            seq.OSYM = old
            specs.EXACT = False
            del seq.NODES[keep:]
        self.num, self.rep, self.byk, self.seen = {}, {}, {}, []
        for x in self.outs:
            self.register(x)
        self.nodes = list(self.rep.values())

    def register(self, x):
        """number the parts of a definition; equal ones share their number"""
        st = []
        def walk(x):
            if id(x) in self.num:
                return
            self.num[id(x)] = None
            self.seen.append(x)
            if isinstance(x, (seq.Fun, seq.WSum)):
                raise Unsupported('definition uses ' + type(x).__name__)
            for y in x.kids():
                walk(y)
            if isinstance(x, seq.Sum):
                walk(x.cum)
            if isinstance(x, seq.Prev):
                walk(x.r)
            st.append(x)
        walk(x)
        for x in st:
            n = self.byk.setdefault(self.key(x, ()), len(self.byk))
            self.num[id(x)] = n
            self.rep.setdefault(n, x)

    def input(self, k):
        return self.ins[k]

    def key(self, x, up):
        """structure of a definition (equal definitions share their ghosts)"""
        k = lambda y: self.key(y, up)
        t = type(x).__name__
        if isinstance(x, seq.In):
            return ('In', x.k)
        if isinstance(x, seq.Const):
            return ('Const', nstr(x.v))
        if isinstance(x, seq.Idx):
            return ('Idx',)
        if isinstance(x, seq.Prev):
            return ('Prev', up.index(id(x.r))) if id(x.r) in up else ('Prev', id(x.r))
        if isinstance(x, seq.Lag):
            return (k(x.x), 'Lag', nstr(x.k)) if not (seq.num(x.k) and x.k == 0) else k(x.x)
        if isinstance(x, seq.Pt):
            return (x.op,) + tuple(k(y) for y in x.args)
        if isinstance(x, seq.Where):
            return ('?', k(x.c), k(x.a), k(x.b))
        if isinstance(x, seq.Rec):
            u = (id(x),) + up
            return ('Rec', nstr(x.s), str(x.before), None if x.init is None else self.key(x.init, u), self.key(x.step, u))
        if isinstance(x, seq.Cum):
            return ('Cum', nstr(x.s), k(x.x))
        if isinstance(x, seq.Sum):
            return ('Sum', nstr(x.n), k(x.cum))
        if isinstance(x, seq.From):
            return ('From', nstr(x.s), str(x.before), k(x.x))
        if isinstance(x, seq.ExtAge):
            return ('ExtAge', x.op, nstr(x.n), k(x.x))
        if isinstance(x, seq.Ext):
            return ('Ext', x.op, nstr(x.n), k(x.x))
        return (t, id(x))

    def selfref(self, x):
        """does the step of a recursion use its own past"""
        if not hasattr(x, '_self'):
            seen, st = set(), [x.step]
            x._self = False
            while st:
                y = st.pop()
                if id(y) in seen:
                    continue
                seen.add(id(y))
                if isinstance(y, seq.Prev) and y.r is x:
                    x._self = True
                st.extend(y.kids())
                if isinstance(y, seq.Sum):
                    st.append(y.cum)
        return x._self

    def range(self, k):
        rg = self.kw.get('ranges', [])
        lo, hi = rg[k] if k < len(rg) else (1, None)
        return (lo if lo is not None else 1), min(hi if hi is not None else OPTBOUND, OPTBOUND)


class Shift:
    """a definition over other sequences, its bar 0 at their bar S"""
    def __init__(self, opts, args, S):
        self.sub = []
        for n, t in opts:
            if n[0] == 'i':
                self.sub.append((z3.Int(n), zi(t)))
            else:
                self.sub.append((z3.Real(n), zr(t)))
        self.args, self.S, self.memo, self.keep = args, S, {}, []

    def n(self, v):
        """a number made of options"""
        if not z3.is_expr(v):
            return v
        u = z3.simplify(z3.substitute(v.plain() if isinstance(v, IOpt) else v, *self.sub)) if self.sub else v
        if z3.is_int_value(u):
            return u.as_long()
        return wrap(u) if z3.is_arith(u) else u

    def bar(self, v):
        u = self.n(v)
        r = add(u.plain() if isinstance(u, IOpt) else u, self.S.plain() if isinstance(self.S, IOpt) else self.S)
        if isinstance(r, int):
            return r
        r = z3.simplify(r)
        return r.as_long() if z3.is_int_value(r) else wrap(r)

    def get(self, x):
        r = self.memo.get(id(x))
        if r is None:
            r = self.make(x)
            self.memo[id(x)] = r
            self.keep.append((x, r))
        return r

    def make(self, x):
        b, t = self.get, type(x)
        zero = isinstance(self.S, int) and self.S == 0
        if t is seq.In:
            return self.args[x.k]
        if t is seq.Const:
            return seq.Const(self.n(x.v))
        if t is seq.Idx:
            return x if zero else seq.Idx() - seq.S(self.S if isinstance(self.S, int) else wrap(self.S))
        r = t.__new__(t)
        r.memo = {}
        r.total = x.total
        self.memo[id(x)] = r
        if t is seq.Prev:
            r.start, r.r = 0, b(x.r)
            return r
        r.start = self.bar(x.start) if not x.total else 0
        if t is seq.Lag:
            r.x, r.k = b(x.x), self.n(x.k)
        elif t is seq.Pt:
            r.op, r.args = x.op, [b(a) for a in x.args]
        elif t is seq.Where:
            r.c, r.a, r.b = b(x.c), b(x.a), b(x.b)
        elif t is seq.Rec:
            r.s, r.before, r.name = self.bar(x.s), x.before, x.name
            r.prev = seq.Prev.__new__(seq.Prev)
            r.prev.memo, r.prev.r, r.prev.start, r.prev.total = {}, r, 0, True
            self.memo[id(x.prev)] = r.prev
            r.init = None if x.init is None else b(x.init)
            r.step = b(x.step)
        elif t is seq.From:
            r.x, r.s, r.before = b(x.x), self.bar(x.s), x.before
        elif t is seq.Cum:
            r.x, r.s = b(x.x), self.bar(x.s)
        elif t is seq.Sum:
            r.x, r.n, r.cum = b(x.x), self.n(x.n), b(x.cum)
        elif t is seq.Ext or t is seq.ExtAge:
            r.x, r.n, r.op = b(x.x), self.n(x.n), x.op
        else:
            raise Unsupported('definition uses ' + t.__name__)
        return r


def zeval(t, env):
    """numeric value of a term over the options"""
    if not z3.is_expr(t):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    k = t.decl().kind()
    if z3.is_const(t):
        return env[str(t)]
    if k == z3.Z3_OP_ITE:
        return zeval(t.arg(1) if zeval(t.arg(0), env) else t.arg(2), env)
    a = [zeval(c, env) for c in t.children()]
    if k == z3.Z3_OP_ADD:
        return sum(a)
    if k == z3.Z3_OP_SUB:
        return a[0] - sum(a[1:])
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_MUL:
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_DIV:
        return a[0] / a[1]
    if k == z3.Z3_OP_IDIV:
        return a[0] // a[1]
    if k == z3.Z3_OP_MOD:
        return a[0] % a[1]
    if k in (z3.Z3_OP_TO_REAL,):
        return float(a[0])
    if k == z3.Z3_OP_TO_INT:
        return math.floor(a[0])
    if k == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    f = {z3.Z3_OP_LE: lambda: a[0] <= a[1], z3.Z3_OP_LT: lambda: a[0] < a[1], z3.Z3_OP_GE: lambda: a[0] >= a[1], z3.Z3_OP_GT: lambda: a[0] > a[1],
         z3.Z3_OP_EQ: lambda: a[0] == a[1], z3.Z3_OP_DISTINCT: lambda: a[0] != a[1], z3.Z3_OP_AND: lambda: all(a), z3.Z3_OP_OR: lambda: any(a),
         z3.Z3_OP_NOT: lambda: not a[0]}.get(k)
    if f:
        return f()
    n = t.decl().name()
    if n.startswith('m_'):
        return seq.CFUN[n[2:]](*[float(x) for x in a])
    if n == 'finv':
        return 1.0 / a[0]
    raise Unsupported('cannot evaluate %s' % n)


class Conc:
    """concrete copy of a symbolic definition"""
    def __init__(self, opts, ins):
        self.env = {}
        for k, o in enumerate(opts):
            if isinstance(o, int):
                self.env['iopt%d' % k] = o
                self.env['hopt%d' % k] = o // 2
            else:
                self.env['opt%d' % k] = o
        self.ins, self.memo, self.keep = ins, {}, []

    def n(self, v):
        return zeval(v, self.env) if z3.is_expr(v) else v

    def build(self, x):
        r = self.memo.get(id(x))
        if r is None:
            r = self.build1(x)
            self.memo[id(x)] = r
            self.keep.append(x)
        return r

    def build1(self, x):
        b = self.build
        t = type(x)
        r = t.__new__(t)
        r.memo = {}
        self.memo[id(x)] = r
        if t is seq.Prev:
            r.start = 0
            r.r = b(x.r)
            return r
        r.start = self.n(x.start)
        if t is seq.In:
            r.k, r.data = x.k, self.ins[x.k]
        elif t is seq.Const:
            r.v = self.n(x.v)
            r.start = 0
        elif t is seq.Idx:
            pass
        elif t is seq.Lag:
            r.x, r.k = b(x.x), self.n(x.k)
        elif t is seq.Pt:
            r.op, r.args = x.op, [b(a) for a in x.args]
        elif t is seq.Where:
            r.c, r.a, r.b = b(x.c), b(x.a), b(x.b)
        elif t is seq.Rec:
            r.s, r.before, r.name = self.n(x.s), x.before, x.name
            r.prev = seq.Prev.__new__(seq.Prev)
            r.prev.memo, r.prev.r, r.prev.start = {}, r, 0
            self.memo[id(x.prev)] = r.prev
            r.init = None if x.init is None else b(x.init)
            r.step = b(x.step)
        elif t is seq.From:
            r.x, r.s, r.before = b(x.x), self.n(x.s), x.before
        elif t is seq.Cum:
            r.x, r.s = b(x.x), self.n(x.s)
        elif t is seq.Sum:
            r.x, r.n, r.cum = b(x.x), self.n(x.n), b(x.cum)
        elif t is seq.Ext:
            r.x, r.n, r.op = b(x.x), self.n(x.n), x.op
        elif isinstance(x, seq.WSum):
            r.n = self.n(x.n)
            r.f = x.f
            r.terms = [b(seq.S(x.f(j))) for j in range(r.n)]
            r.start = max([r.start] + [q.start for q in r.terms])
        else:
            raise Unsupported('definition uses ' + t.__name__)
        return r


# ---- symbolic meaning of definitions --------------------------------------------------
class ValEnv(batch.BatchEnv):
    some = True
    def __init__(self, spec, mods, lib, pin=None):
        batch.BatchEnv.__init__(self, spec, mods, lib)
        self.pin, self.globs = pin or {}, {}
        self.sym_ = SymSpec(spec.name, spec.nin, pin)
        self.memo = {}
        self.inames = [str(x) for x in (spec.row[2] or [])]
        self.ghost = {}         # atom id -> (node, ix)
        self.anchors = {}       # header -> {node id: [ix]}
        self.templates = {}
        self.unmatched = []

    # -- options
    def opt(self, ex, k):
        sy = self.sym_
        if k in self.pin:
            return Fraction(self.pin[k])
        if k < len(sy.kinds) and sy.kinds[k] == 'i':
            t = sy.opts[k]
            t = z3.ArithRef(t.ast, t.ctx)
            if ('opt', k) not in ex.axioms_seen:
                ex.axioms_seen.add(('opt', k))
                lo, hi = sy.range(k)
                ex.assume(z3.And(t >= lo, t <= hi))
                ex.setr(t, lo, hi)
                ex.keep.append(t)
                if k in self.case:
                    lo, hi = self.case[k]
                    ex.assume(z3.And(t >= lo, t <= hi))
            return z3.ToReal(t)
        return batch.BaseEnv.opt(self, ex, k)

    def option_int(self, ex, t):
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return t.arg(0)
        if z3.is_app_of(t, z3.Z3_OP_ADD) or z3.is_app_of(t, z3.Z3_OP_MUL) or z3.is_app_of(t, z3.Z3_OP_SUB):
            r = intlin(t)
            if r is not None:
                return ex.ring.ix(r) if ex is not None and hasattr(ex, 'ring') else r
        return batch.BaseEnv.option_int(self, ex, t)

    def rmul(self, ex, x, y):
        return ex.T(ex.ring.mul(ex.P(x), ex.P(y)))

    def setup(self, ex, st):
        batch.BatchEnv.setup(self, ex, st)

    def classify(self, ex, t):
        rg = ex.ring
        n = t.decl().name()
        if n.startswith('IN_'):
            return rg.atom(t, 'in', key='s:%s@%s' % (n, t.arg(0)))
        if z3.is_const(t):
            if n.startswith('opt'):
                return rg.atom(t, 'opt', key='o:' + n)
            return rg.atom(t, 'var', key='u:' + n)
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            u = t.arg(0)
            if z3.is_const(u) and str(u)[1:4] == 'opt':
                return rg.atom(t, 'opt', key='o:' + str(u), nz=True)
            return rg.atom(t, 'int', key='p:' + str(u))
        return rg.atom(t, 'fun', key='v:' + n)

    # -- memory
    outmode = frozenset()       # outputs whose elements are rewritten: compared at the end

    def havoc_array(self, ex, h, k, nm):
        return Content(nm)

    def init_array(self, ex, key):
        return Content('%s@%s+%d' % (ex.prefix, key[1], key[2]))

    def select(self, ex, st, key, ix):
        o = key[1]
        if o.startswith('IN') and o[2:].isdigit() and key[2] in (None, 0):
            return FV(ex.T(ex.input(int(o[2:]), ix)))
        if o.startswith('G:'):
            return self.tab(ex, o, key[2] or 0, ix)
        k = self.outk(o)
        if k is None or k in self.outmode:
            return FV(ex.T(ex.get_arr(st, key).at(ex, ix)))
        if k is not None:
            self.outread.add(k)
            return FV(ex.T(self.term(ex, self.sym_.outs[k], ex.ring.ix(add(self.start, ix)))))
        return None

    def tab(self, ex, o, base, ix):
        """an element of a table of constants"""
        if not isinstance(ix, int):
            ix = z3.simplify(ex.ring.ix(ix)) if z3.is_expr(ex.ring.ix(ix)) else ex.ring.ix(ix)
            ix = ix.as_long() if z3.is_expr(ix) and z3.is_int_value(ix) else ix
        site = ex.objs[o].site
        if site is None or site[2] is None:
            return None
        if not isinstance(ix, int):
            nb = ex.objs[o].size
            ix = next((k for k in range(min(nb // 8 - base // 8, 64)) if ex.decide(cmp('==', ix, k)) is True), None) if isinstance(nb, int) else None
            if ix is None:
                return None
        it = self.globs.setdefault(id(site[0]), interp.Interp([site[0]]))
        ob, off = it.glob(site[0], o[2:])
        v = ob.m.get(off + base + 8 * ix)
        return None if v is None else FV(poly.snap(v))

    def init_cell(self, ex, key, ty):
        o, off = key[1], key[2]
        if ty == 'double' and o.startswith('G:'):
            v = self.tab(ex, o, off, 0)
            if v is not None:
                return v
        if ty == 'double' and off % 8 == 0 and o[:2] == 'IN' and o[2:].isdigit():
            return FV(ex.T(ex.input(int(o[2:]), off // 8)))
        if ty == 'double' and off % 8 == 0 and o[:3] == 'OUT' and o[3:].isdigit() and int(o[3:]) not in self.outmode:
            self.outread.add(int(o[3:]))
            return FV(ex.T(self.term(ex, self.sym_.outs[int(o[3:])], ex.ring.ix(add(self.start, off // 8)))))
        return batch.BatchEnv.init_cell(self, ex, key, ty)

    def on_access(self, ex, st, guard, ob, bs, e, b, n, where, write):
        if ob.kind == 'out' and write:
            self.lastout = (int(ob.name[3:]), e, n)
        batch.BatchEnv.on_access(self, ex, st, guard, ob, bs, e, b, n, where, write)

    def outk(self, o):
        return int(o[3:]) if o.startswith('OUT') and o[3:].isdigit() else None

    def outs_by_end(self, k):
        return self.outk(k) is None or self.outk(k) in self.outmode

    # -- contracts of called indicators: their outputs are their definitions of the arrays they get
    def call_batch(self, ex, name, sp, A, i, reach):
        if name not in specs.SPECS:
            raise Unsupported('calls ' + name)
        size, inp, opt, outp = A
        w = i.line
        old = getattr(ex, 'ctxcond', None)
        ex.ctxcond = And(reach, cmp('>', size, 0))
        if isinstance(ex.ctxcond, bool):
            ex.ctxcond = None
        try:
            ins = self.read_cells(ex, inp, sp.nin, 'ptr', reach, w)
            opts = self.read_cells(ex, opt, sp.nopt, 'double', reach, w)
            args, S = [], None
            for p in ins:
                m = self.argument(ex, p, size)
                if S is None:
                    S = m[1]
                elif ex.decide(cmp('==', S, m[1])) is not True:
                    raise Unsupported('inputs of %s start at different bars' % name)
                args.append(m[0])
            ci = [str(x) for x in (sp.row[2] or [])]
            for k, n in enumerate(ci):
                if n in ('high', 'low') and 'high' in ci and 'low' in ci:
                    if not isinstance(args[k], seq.In) or self.inames[args[k].k] != n:
                        raise Unsupported('high and low of ' + name)
            S = 0 if S is None else ex.ring.ix(S)
            sp_ = SymSpec(name, sp.nin)
            vals = []
            for k, c in enumerate(sp_.kinds):
                t = opts[k].t
                if t is None:
                    raise Unsupported('option of ' + name)
                if c == 'i':
                    n = int(t) if isc(t) and t == int(t) else intlin(t) if z3.is_expr(t) else None
                    if n is None:
                        raise Unsupported('option of ' + name)
                    n = ex.ring.ix(n)
                    lo, hi = sp_.range(k)
                    ex.oblig('callee-domain', reach, And(cmp('>=', n, lo), cmp('<=', n, hi)), w)
                    if sp_.kw.get('even') and k == 0:
                        raise Unsupported('calls ' + name)
                    vals.append(('iopt%d' % k, n))
                else:
                    vals.append(('opt%d' % k, t))
            outs = Shift(vals, args, S)
            self.res_ = [outs.get(x) for x in sp_.outs]
            for x in self.res_:
                self.sym_.register(x)
            self.base_ = S
            self.start_ = self.start_term(ex, name, opts)
            ex.keep.append((self.res_, args, outs))
        finally:
            ex.ctxcond = old
        return batch.BatchEnv.call_batch(self, ex, name, sp, A, i, reach)

    def argument(self, ex, p, size):
        """what a callee sees through a pointer: a definition, and the bar of its first element"""
        alts = [q for q in p.alts if q[1] is not None]
        if len(alts) != 1:
            raise Unsupported('argument of a call')
        g, o, bs, e, b = alts[0]
        if o.startswith('IN') and o[2:].isdigit() and b == 0 and bs in (None, 0):
            return self.sym_.input(int(o[2:])), e
        key, ix, off = ex.key_of(o, bs, e, b, 'double')
        if key[0] == 'c':
            bs2 = ex.pick_region(o, off)
            key, ix = ('a', o, bs2), (off - bs2) // 8
        if not self.outs_by_end(o):
            # an output holds its definition
            k = self.outk(o)
            return self.sym_.outs[k], add(self.start, ix)
        m = ex.get_arr(ex.st, key).region(ex, ix, size)
        if m is None:
            if os.environ.get('VDEBUG'):
                for l in ex.get_arr(ex.st, key).layers:
                    print('  layer', type(l).__name__, *[getattr(l, q) for q in l.__slots__])
                print('  wanted', ix, size, ex.ctxcond)
            raise Unsupported('array passed to a callee: ' + o)
        n = m.node
        if m.node is None:
            n = seq.Const(m.co)
        elif m.co != 1:
            n = seq.Const(m.co) * n
        return n, add(m.c, ix)

    def callee_writes(self, ex, name, key, ix, n, i):
        k = self.outnow
        x = self.res_[k]
        st = self.start_
        rv = self.retnow
        c = ex.ring.ix(sub(add(st, self.base_), ix))
        a = ex.get_arr(ex.st, key)
        hi = ex.ring.ix(add(ix, n))
        g = cmp('==', rv, 0)
        m = Map(g, ix, hi, Fraction(1), x, 1, c)
        o = self.outk(key[1])
        if o is not None and o not in self.outmode:
            # the elements an output receives
            j = z3.Int(ex.fresh_name('j'))
            gg = And(ex.reach.get(ex.curblock, True), g, cmp('>=', j, ix), cmp('<', j, hi))
            old = getattr(ex, 'ctxcond', None)
            ex.ctxcond = gg if z3.is_expr(gg) else None
            try:
                want = self.term(ex, self.sym_.outs[o], ex.ring.ix(add(self.start, j)))
                have = m.value(ex, j)
            finally:
                ex.ctxcond = old
            ex.eqob('output-value', gg, have, want, '%s output %d' % (i.line, o))
            return
        ex.st.m[key] = a.put(content.Un(Not(g) if z3.is_expr(g) else not g, ix, hi, ex.fresh_name('un'))).put(m)

    # -- definitions as polynomials
    def term(self, ex, x, i):
        """value of a definition at a bar: polynomial, or condition"""
        key = (id(x), i if isinstance(i, int) else i.get_id())
        r = self.memo.get(key)
        if r is None:
            r = self.term1(ex, x, i)
            self.memo[key] = r
            if getattr(x, 'nonneg', False):
                ex.nonneg.append(r)
                ex.assume(zb(ex.rel('<=', {}, r)))
            ex.keep.append((x, i))
        return r

    def num(self, ex, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return ex.ring.const(poly.snap(Fraction(v)))
        if z3.is_bool(v):
            return z3.simplify(v)
        if z3.is_int(v):
            return ex.ring.ofint(z3.ArithRef(v.ast, v.ctx))
        return ex.P(v)

    def sub(self, ex, i, k):
        return ex.ring.ix(sub(i, z3.ArithRef(k.ast, k.ctx) if isinstance(k, IOpt) else k))

    def term1(self, ex, x, i):
        rg = ex.ring
        if isinstance(x, seq.In):
            return ex.input(x.k, i)
        if isinstance(x, seq.Const):
            return self.num(ex, x.v)
        if isinstance(x, seq.Idx):
            return rg.const(i) if isinstance(i, int) else rg.ofint(i)
        if isinstance(x, seq.Lag):
            return self.term(ex, x.x, self.sub(ex, i, x.k))
        if isinstance(x, seq.Pt):
            if x.op == 'and' or x.op == 'or':
                a, b = [self.term(ex, y, i) for y in x.args]
                return (And if x.op == 'and' else Or)(a, b)
            a = [self.term(ex, y, i) for y in x.args]
            return ex.prim(x.op, a)
        if isinstance(x, seq.Where):
            c = self.term(ex, x.c, i)
            if c is True:
                return self.term(ex, x.a, i)
            if c is False:
                return self.term(ex, x.b, i)
            a, b = self.term(ex, x.a, i), self.term(ex, x.b, i)
            if isinstance(a, dict):
                return rg.mkif(c, a, b)
            return ite(c, a, b)
        if isinstance(x, seq.Prev):
            return self.term(ex, x.r, i)
        if isinstance(x, seq.Rec) and x.init is not None and x.before is None and not self.sym_.selfref(x):
            # no recursion: one value at its first bar, another formula after it
            return self.unfold(ex, x, i)[1]
        if isinstance(x, (seq.Rec, seq.Cum)):
            return self.ghostvar(ex, x, i)
        if isinstance(x, seq.Sum):
            return rg.sub(self.term(ex, x.cum, i), self.term(ex, x.cum, self.sub(ex, i, x.n)))
        if isinstance(x, seq.Ext):
            n = x.n.plain() if isinstance(x.n, IOpt) else x.n
            return self.window(ex, x, rg.ix(add(sub(i, n), 1)), i)
        if isinstance(x, seq.ExtAge):
            n = x.n.plain() if isinstance(x.n, IOpt) else x.n
            return rg.sub(rg.const(i) if isinstance(i, int) else rg.ofint(i), self.window(ex, x, rg.ix(add(sub(i, n), 1)), i))
        if isinstance(x, seq.From):
            c = ex.decide(cmp('>=', i, zi(x.s) if z3.is_expr(x.s) else x.s))
            bf = self.num(ex, x.before)
            if c is True:
                return self.term(ex, x.x, i)
            if c is False:
                return bf
            return rg.mkif(cmp('>=', i, x.s), self.term(ex, x.x, i), bf)
        raise Unsupported('definition uses ' + type(x).__name__)

    def ghostvar(self, ex, x, i):
        n = self.sym_.num[id(x)]
        x = self.sym_.rep[n]
        nm = 'g%d' % n
        t = z3.Function(nm, I, R)(zi(i))
        a = ex.ring.byt.get(t.get_id())
        if a is None:
            a = ex.ring.atom(t, 'ghost', (x, i), key='t:%s@%s' % (nm, i))
        return ex.ring.var(a)

    def window(self, ex, x, a, b):
        """the largest / smallest value of the bars a .. b"""
        n = self.sym_.num[id(x.x)]
        a, b = ex.ring.ix(a), ex.ring.ix(b)
        if isinstance(a, int) and a == b or z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
            return self.term(ex, x.x, b) if not isinstance(x, seq.ExtAge) else rg_int(ex.ring, b)
        nm = '%s%s%d' % ('p' if isinstance(x, seq.ExtAge) else 'w', x.op, n)
        t = z3.Function(nm, I, I, R)(zi(a), zi(b))
        q = ex.ring.byt.get(t.get_id())
        if q is None:
            ex.wins[nm] = x
            q = ex.ring.atom(t, 'ext', (x, a, b), key='t:%s@%s,%s' % (nm, a, b))
        return ex.ring.var(q)

    def window_facts(self, ex, q):
        """what is true of the extreme of a window"""
        x, a, b = q.data
        if isinstance(x, seq.ExtAge):
            return self.place_facts(ex, q)
        t = q.t
        at = lambda k: zr(ex.T(self.term(ex, x.x, k)))
        ge = (lambda u, v: u >= v) if x.op == 'max' else (lambda u, v: u <= v)
        out = []
        xb, xa = at(b), at(a)
        lt = zb(cmp('<', a, b))
        b1, a1 = ex.ring.ix(sub(b, 1)), ex.ring.ix(add(a, 1))
        w1, w2 = (zr(ex.T(self.window(ex, x, a, b1))), zr(ex.T(self.window(ex, x, a1, b))))
        out.append(Implies(cmp('==', a, b), t == xb))
        out.append(z3.Implies(lt, t == z3.If(ge(w1, xb), w1, xb)))
        out.append(z3.Implies(lt, t == z3.If(ge(w2, xa), w2, xa)))
        for k in ex.members:
            xk = at(k)
            for (u, lo, hi) in ((t, a, b), (w1, a, b1), (w2, a1, b)):
                out.append(Implies(And(cmp('<=', lo, k), cmp('<=', k, hi)), ge(u, xk)))
        return [zb(o) for o in out]

    def place_facts(self, ex, q):
        """what is true of the last place of a window's extreme"""
        p, a, b = q.data
        x = ext_of(p)
        out = []
        xb, xa = [zr(ex.T(self.term(ex, x.x, k))) for k in (b, a)]
        lt = zb(cmp('<', a, b))
        b1, a1 = ex.ring.ix(sub(b, 1)), ex.ring.ix(add(a, 1))
        ws = []
        for u, v in ((a, b), (a, b1), (a1, b)):
            w = self.window(ex, x, u, v)
            ws.append(zr(ex.T(w)))
            at = ex.ring.byt.get(ws[-1].get_id())
            if at is not None and at.kind == 'ext':
                out += self.window_facts(ex, at)
        p1, p2 = zr(ex.T(self.window(ex, p, a, b1))), zr(ex.T(self.window(ex, p, a1, b)))
        ra, rb = z3.ToReal(zi(a)), z3.ToReal(zi(b))
        ge = (lambda u, v: u >= v) if x.op == 'max' else (lambda u, v: u <= v)
        out.append(Implies(cmp('==', a, b), q.t == rb))
        out.append(z3.Implies(lt, q.t == z3.If(ge(xb, ws[1]), rb, p1)))
        out.append(z3.Implies(lt, q.t == z3.If(ge(ws[2], xa), p2, ra)))
        out.append(Implies(cmp('<=', a, b), z3.And(ra <= q.t, q.t <= rb)))
        out.append(z3.Implies(lt, z3.And(ra <= p1, p1 <= rb - 1, ra + 1 <= p2, p2 <= rb)))
        return [zb(o) for o in out]

    def unfold(self, ex, x, i):
        """defining equation of a ghost at a bar: (guard or None, polynomial)"""
        rg = ex.ring
        d = ex.decide
        s = x.s
        if isinstance(s, IOpt):
            s = z3.ArithRef(s.ast, s.ctx)
        ge, eq = cmp('>=', i, s), cmp('==', i, s)
        prev = rg.ix(sub(i, 1))
        if isinstance(x, seq.Cum):
            full = lambda: rg.add(self.ghostvar(ex, x, prev), self.term(ex, x.x, i))
            c = d(ge)
            if c is True:
                return True, full()
            if c is False:
                return True, {}
            return True, rg.mkif(ge, full(), {})
        # Rec
        if x.init is None:
            init = None
        c = d(ge)
        if c is False:
            return (True, self.num(ex, x.before)) if x.before is not None else (False, None)
        step = lambda: self.term(ex, x.step, i)
        if x.init is None:
            body = step
        else:
            e = d(eq)
            ini = lambda: self.term(ex, x.init, i)
            body = ini if e is True else step if e is False else (lambda: rg.mkif(eq, ini(), step()))
        if c is True:
            return True, body()
        if x.before is not None:
            return True, rg.mkif(ge, body(), self.num(ex, x.before))
        return ge, body()

    # -- loops
    def at_header(self, ex, h, r, st):
        ex.pin_ints(h, st)

    def set_values(self, ex, h, st):
        for item, tm in self.templates.get(h, {}).items():
            if item[0] == 'f':
                tm.assume(ex, st, ex.R, None)
                continue
            if item[0] == 'a':
                c = Content(ex.fresh_name('hv'))
                for m in tm.maps(ex, st, ex.R):
                    c = c.put(m)
                st.m[item] = c
                continue
            p = tm.poly(ex, st, ex.R, lambda: z3.Real(ex.fresh_name('free')))
            v = FV(ex.T(p))
            if isinstance(tm, WinTemplate):
                tm.assume(ex, st, ex.R, p)
            if item[0] == 'p':
                ex.R[item[1]] = v
            else:
                st.m[('c', item[1], item[2])] = v

    def at_latch(self, ex, h, cond, st, vals, old):
        self.value_obligs(ex, h, cond, st, 'value-preserved')

    def value_obligs(self, ex, h, cond, st, kind):
        for item, tm in self.templates.get(h, {}).items():
            if item[0] == 'f':
                try:
                    x = ex.env.term(ex, tm.x.x, tm.at(ex, st, ex.R))
                    wh = '%s %s' % (h, '.'.join(map(str, item)))
                    ex.tguard = True
                    ex.eqob(kind, And(cond, tm.guard(ex, st, ex.R)), x, ex.env.window(ex, tm.x, *tm.ends(ex, st, ex.R)), wh, tag=(h, item))
                    tm.oblige(ex, kind, cond, st, ex.R, x, wh, (h, item))
                except NA:
                    ex.oblig(kind, cond, False, h, tag=(h, item))
                continue
            if item[0] == 'a':
                try:
                    ms = tm.maps(ex, st, ex.R)
                except NA:
                    ex.oblig(kind, cond, False, h, tag=(h, item))
                    continue
                ex.arrayob(kind, cond, ex.get_arr(st, item), ms, '%s %s' % (h, '.'.join(map(str, item))), (h, item))
                continue
            try:
                v = ex.R.get(item[1]) if item[0] == 'p' else st.m.get(('c', item[1], item[2]), ex.initial.get(('c', item[1], item[2])))
                if v is ZERO:
                    v = FV(Fraction(0))
                ex.tguard = True
                want = tm.poly(ex, st, ex.R)
            except NA:
                ex.oblig(kind, cond, False, h, tag=(h, item))
                continue
            if not isinstance(v, FV) or v.t is None:
                ex.oblig(kind, cond, False, h, tag=(h, item))
                continue
            wh = '%s %s' % (h, '.'.join(map(str, item)))
            ex.eqob(kind, And(cond, ex.tguard), ex.P(v.t), want, wh, tag=(h, item))
            if isinstance(tm, WinTemplate):
                try:
                    tm.oblige(ex, kind, cond, st, ex.R, ex.P(v.t), wh, (h, item))
                except NA:
                    ex.oblig(kind, cond, False, h, tag=(h, item))

    def post(self, ex):
        outs = self.sym_.outs
        for (r, st, v) in ex.rets:
            for k, x in enumerate(outs):
                s = x.start
                if k in self.outmode:
                    a = ex.get_arr(st, ('a', 'OUT%d' % k, 0))
                    ex.arrayob('output-value', And(r, cmp('==', v, 0)), a, [Map(True, 0, self.nout, Fraction(1), x, 1, self.start)], 'output %d' % k, None)
                ex.oblig('start-value', And(r, cmp('==', v, 0)), cmp('==', self.start, zi(s) if z3.is_expr(s) else s), 'ret')


class Template:
    """ghost expression for a floating-point variable of a loop"""
    def __init__(self, parts, const=0, other=None):
        self.parts, self.const = parts, const      # (coefficient, node, [(vocab, k)], c)
        self.other = other                         # value while the (single) part is not yet defined

    def poly(self, ex, st, R_, free=None):
        rg = ex.ring
        r = rg.const(self.const)
        for co, node, cs, c, *mult in self.parts:
            if mult:
                co = rg.const(co)
                for m in mult[0]:
                    i = rg.ix(self.index(ex, m[0], m[1], st, R_))
                    co = rg.mul(co, rg.const(i) if isinstance(i, int) else rg.ofint(i))
                co = (lambda _, co=co: co)
                if node is None:
                    r = rg.add(r, co(ex))
                    continue
            ix = rg.ix(self.index(ex, cs, c, st, R_))
            t = ex.env.term(ex, node, ix)
            if t is None:
                raise NA
            if not isinstance(node, seq.Cum) and not (isinstance(node, seq.Rec) and node.before is not None):
                s = node.start
                g = cmp('>=', ix, s.plain() if isinstance(s, IOpt) else s)
                q = ex.decide(g)
                if q is not True:
                    if self.other is None and free is None:
                        ex.tguard = And(ex.tguard, g)
                    else:
                        o = self.other.poly(ex, st, R_, free) if isinstance(self.other, Template) else rg.const(self.other) if self.other is not None else ex.P(free())
                        t = rg.mkif(g if q is None else q, t, o)
            cp = rg.const(co) if isinstance(co, (int, Fraction)) else co(ex)
            r = rg.add(r, rg.mul(cp, t))
        return r

    def index(self, ex, cs, c, st, R_):
        if cs and cs[0] == 'max':
            a, b = [self.index(ex, x, y, st, R_) for x, y in cs[1:]]
            q = ex.decide(cmp('>=', a, b))
            return a if q is True else b if q is False else ite(cmp('>=', a, b), a, b)
        ix = c
        for v, k in cs:
            ix = add(ix, mulc(vget(ex, v, st, R_), k))
        return ix

    def __str__(self):
        sx = lambda cs, c: 'max(%s, %s)' % (sx(*cs[1]), sx(*cs[2])) if cs and cs[0] == 'max' else ''.join('%s*%s' % (k, '.'.join(map(str, v))) for v, k in cs) + '%+d' % c
        f = lambda n: '1' if n is None else type(n).__name__ if not isinstance(n, seq.In) else 'IN%d' % n.k
        return ' + '.join('%s*%s%s(%s)' % (co if not callable(co) else '?', ''.join('(%s)*' % sx(*q) for m in mult for q in m), f(n), sx(cs, c))
                          for co, n, cs, c, *mult in self.parts) + (' + %s' % self.const if self.const or not self.parts else '') + (' else %s' % self.other if self.other is not None else '')


def rg_int(rg, i):
    return rg.const(i) if isinstance(i, int) else rg.ofint(i)


def ext_of(p):
    """the extreme value whose place this is"""
    if not hasattr(p, '_ext'):
        r = seq.Ext.__new__(seq.Ext)
        r.memo, r.x, r.n, r.op, r.start = {}, p.x, p.n, p.op, p.start
        p._ext = r
    return p._ext


class WinTemplate:
    """an extreme value of a window: x = window definition, a, b = its ends, k = variable that points at it, late: the
    value is settled only once k >= a"""
    parts, const, other = (), 0, None

    def __init__(self, x, a, b, k=None, late=False, idle=False, inf=None):
        self.x, self.a, self.b, self.k, self.late, self.idle = x, a, b, k, late, idle
        self.inf = inf
        self.place = None          # definition of the last place of the extreme: k is that place

    index = Template.index

    def ends(self, ex, st, R_):
        return [ex.ring.ix(self.index(ex, cs, c, st, R_)) for cs, c in (self.a, self.b)]

    def at(self, ex, st, R_):
        if self.k is None:
            return None
        return ex.ring.ix(self.index(ex, self.k[0], self.k[1], st, R_))

    def guard(self, ex, st, R_):
        a, b = self.ends(ex, st, R_)
        s = self.x.x.start
        g = And(cmp('<=', s.plain() if isinstance(s, IOpt) else s, a), cmp('<=', a, b))
        if self.late:
            g = And(g, cmp('>=', self.at(ex, st, R_), a))
        return g

    def poly(self, ex, st, R_, free=None):
        a, b = self.ends(ex, st, R_)
        g = self.guard(ex, st, R_)
        q = ex.decide(g)
        t = ex.env.window(ex, self.x, a, b)
        if q is True:
            return t
        if self.inf is not None:
            return ex.ring.mkif(g if q is None else q, t, ex.inf(self.inf))
        if free is None:
            ex.tguard = And(ex.tguard, g)
            return t
        return ex.ring.mkif(g if q is None else q, t, ex.P(free()))

    def assume(self, ex, st, R_, v):
        """the variable points at a place in the window that has the value"""
        k = self.at(ex, st, R_)
        if k is None:
            return
        a, b = self.ends(ex, st, R_)
        g = self.guard(ex, st, R_)
        ex.members.append(k)
        if self.idle:
            ex.assume(zb(Or(g, cmp('<=', k, a))))
        ex.assume(zb(Implies(g, And(cmp('<=', a, k), cmp('<=', k, b), zr(ex.T(ex.env.window(ex, self.x, a, b))) == zr(ex.T(ex.env.term(ex, self.x.x, k)))))))
        if self.place is not None:
            p = ex.env.window(ex, self.place, a, b)
            ex.assume(zb(Implies(g, zr(ex.T(p)) == z3.ToReal(zi(k)))))
            ex.axioms_for(p, 0)

    def oblige(self, ex, kind, cond, st, R_, v, where, tag):
        k = self.at(ex, st, R_)
        if k is None:
            return
        a, b = self.ends(ex, st, R_)
        g = And(cond, self.guard(ex, st, R_))
        if self.idle:
            ex.oblig(kind, And(cond, Not(self.guard(ex, st, R_))), cmp('<=', k, a), where, tag=tag)
        ex.oblig(kind, g, And(cmp('<=', a, k), cmp('<=', k, b)), where, tag=tag)
        ex.eqob(kind, g, v, ex.env.term(ex, self.x.x, k), where, tag=tag)
        if self.place is not None:
            ex.eqob(kind, g, ex.env.window(ex, self.place, a, b), rg_int(ex.ring, k), where, tag=tag)

    def __str__(self):
        f = lambda e: 'max(%s, %s)' % tuple(map(f, e[0][1:])) if e[0][:1] == ['max'] else ''.join('%+d*%s' % (k, '.'.join(map(str, v))) for v, k in e[0]) + '%+d' % e[1]
        return '%s[%s .. %s]%s%s' % (self.x.op, f(self.a), f(self.b), (' last' if self.place is not None else '') + ' at ' + f(self.k) if self.k else '', (' late' if self.late else '') + (' else %s' % self.inf if self.inf is not None else ''))


class ArrTemplate:
    """what an array holds at a loop head: pieces (lo, hi, co, node, s, c, first, other), positions in the loop's variables"""
    parts = ()

    def __init__(self, pieces):
        self.pieces = pieces

    def maps(self, ex, st, R_):
        def ix(e):
            if e is None or isinstance(e, int):
                return e
            cs, t = e
            for v, k in cs:
                t = add(t, mulc(vget(ex, v, st, R_), k))
            return ex.ring.ix(t)
        return [Map(True, ix(lo), ix(hi), co, node, s, ix(c), ix(first), other) for lo, hi, co, node, s, c, first, other in self.pieces]

    def __str__(self):
        sx = lambda e: str(e) if e is None or isinstance(e, int) else ''.join('%+d*%s' % (k, '.'.join(map(str, v))) for v, k in e[0]) + '%+d' % e[1]
        return ' | '.join('[%s, %s): %s*%s(%sj %s)%s' % (sx(lo), sx(hi), co, type(n).__name__, '-' if s < 0 else '', sx(c), '' if f is None else ' from %s else %s' % (sx(f), o))
                          for lo, hi, co, n, s, c, f, o in self.pieces)


def settled(t):
    """a selection with a constant condition inside"""
    seen, st = set(), [t]
    while st:
        u = st.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        if z3.is_app_of(u, z3.Z3_OP_ITE) and (z3.is_true(u.arg(0)) or z3.is_false(u.arg(0))):
            return True
        st.extend(u.children())
    return False


class ValExec(Exec):
    def __init__(self, *a, **k):
        Exec.__init__(self, *a, **k)
        self.ring = poly.Ring(self)
        self.isol = z3.Solver()
        self.isol.set('rlimit', 400000)
        self.isol.set('timeout', 4000)
        self.ipos = 0
        self.dcache = {}
        self.unfolded = {}
        self.bases = []
        self.imemo = {}
        self.gmemo = {}
        self.foldmap = None
        self.nonneg = []
        self.nomerge = set()
        self.wins = {}
        self.ctxcond = None
        self.members = []
        self.infs, self.inputs = [], []
        self.vsol = z3.Solver()
        self.vsol.set('rlimit', 2000000)
        self.vsol.set('timeout', 6000)
        self.vpos = 0

    # -- deciding integer conditions in context -----------------------------------
    def decide(self, c, always=False):
        """True / False if the condition (over integers and options) is settled at this point, else None"""
        if isinstance(c, bool):
            return c
        b = None if always else getattr(self, 'ctxcond', None)
        if b is None and not always:
            b = self.reach.get(getattr(self, 'curblock', None))
        key = (c.get_id(), b.get_id() if z3.is_expr(b) else b)
        if key in self.dcache:
            return self.dcache[key][0]
        s = self.isol
        for e in self.ev[self.ipos:]:
            if e[0] == 'A' and not (z3.is_eq(e[1]) and z3.is_real(e[1].arg(0)) and not intonly(e[1])):
                s.add(intabs(e[1], self.imemo, self.keep))
            elif e[0] == 'I':
                s.add(intabs(e[2], self.imemo, self.keep))
        self.ipos = len(self.ev)
        r = None
        for v in (True, False):
            s.push()
            if z3.is_expr(b):
                s.add(intabs(b, self.imemo, self.keep))
            s.add(z3.Not(c) if v else c)
            q = s.check()
            s.pop()
            solve.STATS['queries'] += 1
            if q == z3.unsat:
                r = v
                break
        self.dcache[key] = (r, c, b)
        return r

    # -- values ---------------------------------------------------------------------
    def fconst_special(self, x):
        return FV(self.T(self.inf(x))) if x == x else TOP

    def inf(self, x):
        """infinity: above or below every price (only compared and copied)"""
        t = z3.Real('PINF' if x > 0 else 'NINF')
        a = self.ring.byt.get(t.get_id())
        if a is None:
            a = self.ring.atom(t, 'inf')
            self.infs.append((t, x > 0))
            for k in list(self.inputs):
                self.infrel(k)
        return self.ring.var(a)

    def infrel(self, t):
        for u, up in self.infs:
            self.assume(t <= u if up else u <= t)

    def hasinf(self, p):
        if not self.infs:
            return False
        t = self.T(p)
        if not z3.is_expr(t):
            return False
        st, seen = [t], set()
        while st:
            u = st.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if any(u.eq(v) for v, _ in self.infs):
                return True
            st.extend(u.children())
        return False

    def P(self, t):
        return self.ring.of(t)

    def T(self, p):
        return self.ring.term(p)

    def input(self, k, ix):
        ix = self.ring.ix(ix)
        t = z3.Function('IN_%d' % k, I, R)(zi(ix))
        a = self.ring.byt.get(t.get_id())
        if a is None:
            a = self.ring.atom(t, 'in', key='s:IN_%d@%s' % (k, ix))
            self.inputs.append(t)
            self.infrel(t)
            nm = self.env.inames
            if k < len(nm) and nm[k] in ('high', 'low') and 'high' in nm and 'low' in nm:
                # the high of a bar is not below its low
                self.assume(z3.Function('IN_%d' % nm.index('low'), I, R)(zi(ix)) <= z3.Function('IN_%d' % nm.index('high'), I, R)(zi(ix)))
            if self.env.market:
                self.assume(t > 0)
                if k < len(nm) and nm[k] in ('open', 'close'):
                    for q, f in (('low', lambda a: a <= t), ('high', lambda a: a >= t)):
                        if q in nm:
                            self.assume(f(z3.Function('IN_%d' % nm.index(q), I, R)(zi(ix))))
        return self.ring.var(a)

    def product(self, m, t):
        at = self.ring.atoms
        ks = [at[a] for a, e in m for _ in range(abs(e))]
        for x, y in zip(ks, ks[1:]):
            if x is not y and x.key == y.key and x is ks[-2]:
                self.axiom(('comm', t.get_id()), [poly.MUL(x.t, y.t) == poly.MUL(y.t, x.t)])
        if len(ks) == 2:
            a, b = ks
            if a is b and m[0][1] > 0:
                self.axiom(('sq', t.get_id()), [t >= 0])
        x, y = t.arg(0), t.arg(1)
        self.axiom(('zero', t.get_id()), [z3.Implies(z3.Or(x == 0, y == 0), t == 0)])

    def prim(self, op, a):
        rg = self.ring
        if op == '+':
            return rg.add(a[0], a[1])
        if op == '-':
            return rg.sub(a[0], a[1])
        if op == '*':
            return rg.mul(a[0], a[1])
        if op == '/':
            return rg.mul(a[0], rg.inv(a[1]))
        if op == 'neg':
            return rg.scale(a[0], -1)
        if op == 'abs':
            return rg.mkif(self.rel('<', a[0], {}), rg.scale(a[0], -1), a[0])
        if op in ('<', '<=', '==', '!='):
            return self.rel(op, a[0], a[1])
        if op == 'not':
            return Not(a[0])
        if op == 'max':
            return rg.mkif(self.rel('<', a[0], a[1]), a[1], a[0])
        if op == 'min':
            return rg.mkif(self.rel('<', a[1], a[0]), a[1], a[0])
        name = {'ln': 'log'}.get(op, op)
        return self.fun(name, a)

    def fun(self, name, ps):
        rg = self.ring
        if name == 'pow' and len(ps[1]) <= 1 and (not ps[1] or () in ps[1]):
            e = ps[1].get((), Fraction(0))
            if e.denominator == 1 and 0 <= e <= 4:
                return rg.power(ps[0], int(e))
        ts = [zr(self.T(p)) for p in ps]
        t = z3.Function('m_' + name, *([R] * (len(ts) + 1)))(*ts)
        self.keep.append(t)
        a = rg.byt.get(t.get_id())
        if a is None:
            a = rg.atom(t, 'fun', ps, key='v:m_' + name)
            if name == 'round':
                fl = self.T(self.fun('floor', [rg.add(ps[0], rg.const(Fraction(1, 2)))]))
                self.assume(z3.Implies(ts[0] >= 0, t == zr(fl)))
                for m in ps[0]:
                    for q, e in m:
                        if rg.atoms[q].kind == 'in':
                            self.assume(rg.atoms[q].t > 0)        # prices are positive
            if name == 'sqrt':
                self.axiom(('sqrt', t.get_id()), [z3.Implies(ts[0] >= 0, t >= 0), z3.Implies(ts[0] > 0, t > 0), z3.Implies(ts[0] == 0, t == 0)])
        return rg.var(a)

    def rel(self, op, p, q):
        """comparison of two values"""
        d = self.ring.sub(p, q)
        if not d:
            return op in ('==', '<=')
        if len(d) == 1 and () in d:
            return cmp({'<': '<', '<=': '<=', '==': '==', '!=': '!='}[op], d[()], 0)
        k, mm, pr = self.ring.content(d, True)
        t = self.T(pr)
        neg = k < 0
        if op == '==':
            return t == 0
        if op == '!=':
            return z3.Not(t == 0)
        if op == '<':
            return z3.Not(t <= 0) if neg else z3.Not(t >= 0)
        return t >= 0 if neg else t <= 0

    # -- instructions ------------------------------------------------------------------
    def fop(self, op, a, b):
        if a.t is None or b.t is None:
            return TOP
        f = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op]
        if self.infs:
            a, b = self.nonf(a), self.nonf(b)
            if a is TOP or b is TOP:
                return TOP
        return FV(self.T(self.prim(f, [self.P(a.t), self.P(b.t)])))

    def nonf(self, a):
        """the value, if it is certainly a number here"""
        p = self.P(a.t)
        if not self.hasinf(p):
            return a
        p = self.resolve(p)
        return TOP if self.hasinf(p) else FV(self.T(p))

    def fcmp(self, pred, a, b):
        if pred in ('true', 'false', 'ord', 'uno') or a.t is None or b.t is None:
            return Exec.fcmp(self, pred, a, b)
        p, q = self.P(a.t), self.P(b.t)
        op = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if op in ('>', '>='):
            p, q = q, p
            op = '<' if op == '>' else '<='
        return self.rel(op, p, q)

    def fmath(self, name, args):
        if any(a.t is None for a in args):
            return TOP
        if self.infs and name not in ('fmax', 'fmin', 'maxnum', 'minnum'):
            args = [self.nonf(a) for a in args]
            if any(a is TOP for a in args):
                return TOP
        ps = [self.P(a.t) for a in args]
        if name in ('ceil', 'floor', 'trunc') and (not ps[0] or list(ps[0]) == [()]):
            q = ps[0].get((), Fraction(0))
            if isinstance(q, (int, Fraction)):
                return FV(Fraction(getattr(math, name)(q)))
        op = {'fabs': 'abs', 'maxnum': 'max', 'fmax': 'max', 'minnum': 'min', 'fmin': 'min'}.get(name)
        return FV(self.T(self.prim(op, ps) if op else self.fun(name, ps)))

    def ite_val(self, c, a, b):
        if isinstance(a, FV) and isinstance(b, FV) and not isinstance(c, bool) and a.t is not None and b.t is not None:
            return FV(self.T(self.ring.mkif(c, self.P(a.t), self.P(b.t))))
        if isinstance(a, Content) and isinstance(b, Content):
            return (a if c else b) if isinstance(c, bool) else content.merge(c, a, b)
        return Exec.ite_val(self, c, a, b)

    def instr(self, i, reach):
        if i.op == 'fneg':
            a = self.val(i.args[0])
            v = TOP if a.t is None else FV(self.T(self.ring.scale(self.P(a.t), -1)))
        else:
            v = Exec.instr(self, i, reach)
            if isinstance(v, FV) and i.op in ('fadd', 'fsub', 'fmul', 'fdiv') and not z3.is_expr(v.t) and v.t is not None:
                # constants: as in the definition, what the machine computes
                try:
                    a, b = (float(self.P(self.val(q).t).get((), 0)) for q in i.args[:2])
                    v = FV(poly.snap({'fadd': a + b, 'fsub': a - b, 'fmul': a * b, 'fdiv': a / b if b else math.nan}[i.op]))
                except (TypeError, ValueError, OverflowError):
                    pass
        if isinstance(v, FV) and z3.is_expr(v.t) and i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'select', 'call') and i.res in self.folds():
            v = self.fold(self.folds()[i.res], v, reach)
        return v

    def join(self, b, inc):
        Exec.join(self, b, inc)
        for h in self.cfg.headers:
            L = self.cfg.loop[h]
            if b not in L and all(p in L for _, _, p in inc):
                self.leave(b, h)
                break
        for i in self.phis(b):
            v = self.R[i.res]
            if isinstance(v, FV) and z3.is_expr(v.t) and i.res in self.folds():
                self.curblock = b
                self.R[i.res] = self.fold(self.folds()[i.res], v, self.reach[b])

    def leave(self, b, h):
        """after a loop its counter is known: write its final value for it"""
        L = self.cfg.loop[h]
        if any(x not in self.reach for x in L) or self.depth:
            return
        exits = [(x, y) for x in L for y in self.cfg.succ[x] if y not in L]
        if any(y != b for x, y in exits):
            return
        cmps = [i for x, y in exits for i in self.fn.blocks[x].instrs if i.op == 'icmp' and all(a[0] != 'r' or a[1] in self.R for a in i.args[:2])]
        for i in cmps:
            x, y = [self.val(a) for a in i.args[:2]]
            if isinstance(x, (PV, FV)) or isinstance(y, (PV, FV)):
                continue
            d, c = poly.lin_of(self.ring.ix(sub(x, y)) if z3.is_expr(sub(x, y)) else sub(x, y))
            for a, (t, q) in d.items():
                if abs(q) != 1 or not z3.is_const(t) or not t.decl().name().startswith(h + '.'):
                    continue
                n = -c * q
                for a2, (u, k) in d.items():
                    if a2 != a:
                        n = add(n, mulc(u, -k * q))
                n = self.ring.ix(n)
                if not self.holds(zb(cmp('==', t, n)), self.reach[b]):
                    continue
                self.rename(t, n)
                return

    def rename(self, t, n):
        n = zi(n)
        self.keep.append((t, n))
        def sb(v):
            if isinstance(v, FV) and z3.is_expr(v.t):
                w = z3.substitute(v.t, (t, n))
                return v if w.eq(v.t) else FV(self.T(self.P(w)))
            if isinstance(v, PV):
                alts = [(g, o, bs, self.ring.ix(z3.substitute(e, (t, n))) if z3.is_expr(e) else e, bb) for g, o, bs, e, bb in v.alts]
                return PV(alts)
            if z3.is_expr(v) and z3.is_int(v):
                w = z3.substitute(v, (t, n))
                if w.eq(v):
                    return v
                w = self.ring.ix(w)
                if z3.is_expr(w):
                    self.setr(w, *self.range(v))
                return w
            return v
        for k in list(self.R):
            self.R[k] = sb(self.R[k])
        for k in list(self.st.m):
            if k[0] in ('c', 'W'):
                self.st.m[k] = sb(self.st.m[k])
            elif k[0] == 'a' and isinstance(self.st.m[k], Content):
                self.st.m[k] = self.st.m[k].subst(lambda u: sb(u) if z3.is_expr(u) and z3.is_int(u) else z3.substitute(u, (t, n)) if z3.is_bool(u) and z3.is_expr(u) else self.T(self.P(z3.substitute(u, (t, n)))) if z3.is_expr(u) else u)

    def folds(self):
        """values that become a loop variable in the next iteration"""
        if self.foldmap is None:
            self.foldmap = {}
            inner = {i.res: i.args for b in self.fn.blocks if b not in self.cfg.headers for i in self.phis(b)}
            for h in self.cfg.headers:
                for i in self.phis(h):
                    tm = self.env.templates.get(h, {}).get(('p', i.res))
                    if tm is None or not isinstance(tm, WinTemplate) and (not tm.parts or not all(isinstance(q[1], (seq.Rec, seq.Cum, seq.Sum)) and not callable(q[0]) and len(q) == 4 and q[2][:1] != ['max'] for q in tm.parts)):
                        continue
                    todo = [a[1] for a, p in zip(i.args, i.x) if a[0] == 'r' and (p, h) in self.cfg.back]
                    seen = {i.res}
                    while todo:
                        a = todo.pop(0)
                        if a in seen:
                            continue
                        seen.add(a)
                        self.foldmap.setdefault(a, []).append((h, tm))
                        todo += [q[1] for q in inner.get(a, ()) if q[0] == 'r']
        return self.foldmap

    def holds(self, f, guard):
        """quick proof that a fact about values holds here"""
        s = self.vsol
        for e in self.ev[self.vpos:]:
            if e[0] == 'A':
                s.add(e[1])
            elif e[0] == 'I':
                s.add(e[2])
        self.vpos = len(self.ev)
        s.push()
        s.add(zb(guard), z3.Not(f))
        q = s.check()
        s.pop()
        solve.STATS['queries'] += 1
        return q == z3.unsat

    def fold(self, where, v, reach):
        """name the new value of a loop variable by the definition it equals"""
        for h, tm in where:
            if h not in self.hst or self.curblock not in self.cfg.loop.get(h, ()):
                continue
            if isinstance(tm, WinTemplate):
                r = self.fold_window(h, tm, v, reach)
                if r is not None:
                    return r
                continue
            try:
                at = [(co, node, self.ring.ix(add(tm.index(self, cs, c, self.hst[h], self.R), sum(k for v, k in cs if v in self.env.vary.get(h, ())))))
                      for co, node, cs, c in tm.parts]
            except NA:
                continue
            old = getattr(self, 'ctxcond', None)
            self.ctxcond = reach if z3.is_expr(reach) else None
            try:
                g = self.ring.const(tm.const)
                ts = [(co, self.env.term(self, node, ix)) for co, node, ix in at]
                if any(t is None for co, t in ts):
                    continue
                for co, t in ts:
                    g = self.ring.add(g, self.ring.scale(t, co))
                d = self.norm(self.ring.sub(self.P(v.t), g))
                if d:
                    d = self.norm(self.resolve(d))
                if d and len(d) <= 8:
                    self.axioms_for(d, 1)
                if not d or len(d) <= 8 and self.holds(zr(self.T(d)) == 0, reach):
                    return FV(self.T(g))
            finally:
                self.ctxcond = old
        return v

    def fold_window(self, h, tm, v, reach):
        """the new value as the extreme of the window at the next visit of the loop head"""
        R2 = dict(self.hst[h].R if hasattr(self.hst[h], 'R') else {})
        nxt = {i.res: a for i in self.phis(h) for a, p in zip(i.args, i.x) if (p, h) in self.cfg.back}
        tries = []
        for mode in (0, 1):
            def nx(cs, c):
                if cs[:1] == ['max']:
                    p, q = [nx(*y) for y in cs[1:]]
                    z = self.decide(cmp('>=', p, q))
                    return p if z is True else q if z is False else ite(cmp('>=', p, q), p, q)
                t = c
                for u, k in cs:
                    a = nxt.get(u[1]) if u[0] == 'p' else None
                    if mode == 0 and a is not None and a[0] == 'r' and a[1] in self.R and not isinstance(self.R[a[1]], (FV, PV)):
                        w = self.R[a[1]]
                    else:
                        w = vget(self, u, self.hst[h], self.R)
                        if u in self.env.vary.get(h, ()):
                            w = add(w, 1)
                    t = add(t, mulc(w, k))
                return t
            e = [self.ring.ix(nx(*y)) for y in (tm.a, tm.b)]
            if e not in tries:
                tries.append(e)
        for a, b in tries:
            old = getattr(self, 'ctxcond', None)
            self.ctxcond = reach if z3.is_expr(reach) else None
            try:
                g = self.env.window(self, tm.x, a, b)
                d = self.ring.sub(self.P(v.t), g)
                if not d:
                    return v
                if len(d) > 12:
                    continue
                self.axioms_for(d, 1)
                if self.holds(z3.And(zb(cmp('<=', a, b)), zr(self.T(d)) == 0), reach):
                    return FV(self.T(g))
            except NA:
                continue
            finally:
                self.ctxcond = old
        return None

    def store(self, st, reach, p, ty, v, where):
        if ty == 'double':
            for (g, o, bs, e, b) in p.alts:
                if o is not None and o.startswith('OUT') and o[3:].isdigit() and int(o[3:]) not in self.env.outmode:
                    k = int(o[3:])
                    gg = And(reach, g)
                    if gg is False:
                        continue
                    if v.t is None:
                        self.oblig('output-value', gg, False, where)
                        continue
                    i = self.settle(self.ring.ix(add(self.env.start, e)), gg)
                    want = self.env.term(self, self.env.sym_.outs[k], i)
                    self.eqob('output-value', gg, self.P(v.t), want, '%s output %d' % (where, k))
        Exec.store(self, st, reach, p, ty, v, where)

    # -- arrays
    def init_array(self, key):
        ob = self.objs.get(key[1])
        return Content(0) if ob is not None and ob.zero else self.env.init_array(self, key)

    def store_arr(self, st, g, key, ix, ty, v):
        if ty == 'ptr':
            raise Unsupported('pointer store with symbolic index')
        if ty != 'double' or ix is None or v.t is None:
            st.m[key] = Content(self.fresh_name('arr'))
            return
        ix = self.ring.ix(ix)
        st.m[key] = self.get_arr(st, key).put(content.St_(g, ix, v.t))

    def havoc_range(self, st, p, n, where, reach, fill=None):
        """the pointer's cases, as far as they are settled where this runs"""
        al = []
        for (g, *q) in p.alts:
            d = g if isinstance(g, bool) else self.decide(g)
            if d is not False:
                al.append((True if d is True else g, *q))
        Exec.havoc_range(self, st, PV(al), n, where, reach, fill)

    def arr_fill(self, st, key, g, lo, hi, fill):
        lo, hi = self.ring.ix(lo), self.ring.ix(hi)
        l = Map(g, lo, hi, Fraction(0), None, 1, 0) if fill == 0 else content.Un(g, lo, hi, self.fresh_name('un'))
        st.m[key] = self.get_arr(st, key).put(l)

    def arr_copy(self, st, k1, i1, k2, i2, cnt, g):
        st.m[k1] = self.get_arr(st, k1).put(content.Cp(g, i1, self.ring.ix(add(i1, cnt)), self.get_arr(st, k2), self.ring.ix(sub(i2, i1))))

    def splits(self, ts):
        """cases of the selections in integer terms: (condition, rewriting)"""
        out, done = [(True, [])], []
        for _ in range(12):
            cs, st, seen = [], [t for t in ts if z3.is_expr(t)], set()
            while st:
                t = st.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app_of(t, z3.Z3_OP_ITE) and not any(t.arg(0).eq(c) for c in cs) and not any(t.arg(0).eq(c) for c in done):
                    cs.append(t.arg(0))
                st.extend(t.children())
            if not cs:
                break
            # settled ones first
            for c in cs:
                q = self.decide(c)
                if q is not None:
                    break
            done.append(c)
            if q is None and len(out) >= 8:
                continue
            out = [(And(g, c if v else z3.Not(c)) if q is None else g, l + [(c, z3.BoolVal(v))]) for g, l in out for v in ((True, False) if q is None else (q,))]
            if q is not None:
                ts = [z3.simplify(z3.substitute(t, (c, z3.BoolVal(q)))) if z3.is_expr(t) else t for t in ts]
                self.keep.append(ts)
        def mk(l):
            def f(t):
                if not z3.is_expr(t) or not l:
                    return t
                u = t
                for x in l:
                    u = z3.substitute(u, x)
                if u.eq(t):
                    return t
                self.keep.append(u)
                if z3.is_int(u):
                    return self.ring.ix(z3.simplify(u))
                u = z3.simplify(u)
                return True if z3.is_true(u) else False if z3.is_false(u) else u
            return f
        return [(g, mk(l)) for g, l in out]

    def arrayob(self, kind, cond, C, ms, where, tag):
        """the elements of an array are what the maps say"""
        old = getattr(self, 'ctxcond', None)
        for m in ms:
            self.ctxcond = cond if z3.is_expr(cond) else None
            for g, f in self.splits([m.lo, m.hi, m.c, m.first]):
                gg = And(cond, g)
                self.ctxcond = gg if z3.is_expr(gg) else None
                if self.decide(g) is False:
                    continue
                mm, cc = m.subst(f), C.subst(f)
                skip = []
                j = z3.Int(self.fresh_name('j'))
                rest = And(gg, mm.inside(j))
                for n in range(len(cc.layers) - 1, -1, -1):
                    l = cc.layers[n]
                    if not isinstance(l, content.St_):
                        continue
                    q = And(gg, l.g, mm.inside(l.ix), *[Or(Not(cc.layers[x].g), cmp('!=', cc.layers[x].ix, l.ix)) for x in skip])
                    skip.append(n)
                    rest = And(rest, Or(Not(l.g), cmp('!=', j, l.ix)))
                    if self.decide(q, True) is False:
                        continue
                    self.ctxcond = q if z3.is_expr(q) else None
                    self.eqob(kind, q, self.P(l.v), mm.value(self, l.ix), where, tag)
                self.ctxcond = rest
                if self.decide(rest, True) is not False:
                    have, want = cc.at(self, j, skip), mm.value(self, self.ring.ix(j))
                    self.ctxcond = old
                    self.eqob(kind, rest, have, want, where, tag)
                self.ctxcond = old
        self.ctxcond = old

    def settle(self, t, guard):
        """the index in terms of what the loop counts, if that is provably the same"""
        if isinstance(t, int):
            return t
        old = getattr(self, 'ctxcond', None)
        self.ctxcond = guard if z3.is_expr(guard) else None
        try:
            best = None
            for b in self.bases[::-1]:
                if isinstance(self.ring.ix(sub(t, b)), int):
                    return t
                for c in (0, -1, 1, -2, 2):
                    if self.decide(t == b + c) is True:
                        return self.ring.ix(b + c)
        finally:
            self.ctxcond = old
        return t

    # -- obligations on values -----------------------------------------------------------
    def eqob(self, kind, guard, p, q, where, tag=None):
        if guard is False:
            return
        old = getattr(self, 'ctxcond', None)
        self.ctxcond = guard if z3.is_expr(guard) else None
        try:
            d0 = self.ring.sub(p, q)
            d = self.norm(d0)
            d2 = self.merge_ix(self.resolve(d)) if d else d
            if d2 is not d:
                d = self.norm(d2)
            if not d:
                self.oblig(kind, guard, True, where, tag=tag)
                return
            if any(isinstance(t.data[0], seq.ExtAge) for t in self.ghosts(d, 'ext').values()):
                d = self.ring.cleared(d)
            self.axioms_for(d, 2)
            if d0 is not d:
                self.axioms_for(d0, 1)     # a branch may test a value the definition names
            for r in self.nonneg:
                q = self.norm(r)
                if q != r:
                    self.assume(zb(Implies(guard, self.rel('<=', {}, q))))
            self.oblig(kind, guard, zr(self.T(d)) == 0, where, tag=tag)
        finally:
            self.ctxcond = old

    def ghosts(self, p, kind='ghost'):
        """ghost atoms anywhere in a value"""
        t = self.T(p)
        return {} if not z3.is_expr(t) else {a: self.ring.atoms[a] for a in sorted(self.gset(t)) if self.ring.atoms[a].kind == kind}

    def gset(self, t):
        memo = self.gmemo
        r = memo.get(t.get_id())
        if r is None:
            self.keep.append(t)
            r = frozenset()
            a = self.ring.byt.get(t.get_id())
            if a is not None and a.kind in ('ghost', 'ext'):
                r = frozenset([a.id])
            for c in t.children():
                r |= self.gset(c)
            memo[t.get_id()] = r
        return r

    def norm(self, p):
        """rewrite ghosts towards the ones the loop state is expressed in"""
        for _ in range(12):
            gs = self.ghosts(p)
            byn = {}
            for a, t in gs.items():
                x, i = t.data
                byn.setdefault(id(x), []).append((a, x, i))
            step = None
            for l in byn.values():
                for a, x, i in l:
                    for b, y, j in l:
                        if a != b:
                            dlt = self.ring.ix(sub(i, j)) if z3.is_expr(i) or z3.is_expr(j) else i - j
                            if isinstance(dlt, int) and 0 < dlt <= 6:
                                g, u = self.env.unfold(self, x, i)
                                if g is True:
                                    step = (a, u)
                                    break
                    if step:
                        break
                if step:
                    break
            if step is None:
                for a, t in gs.items():
                    x, i = t.data
                    s = x.s
                    c = self.decide(cmp('<=' if not isinstance(x, seq.Cum) else '<', i, zi(s) if z3.is_expr(s) else s))
                    if c is True:
                        g, u = self.env.unfold(self, x, i)
                        if g is True:
                            step = (a, u)
                            break
            if step is None:
                return p
            p = self.subst(p, *step)
            if len(p) > 400:
                return p
        return p

    def merge_ix(self, p):
        """the same bar written in two ways"""
        for _ in range(12):
            t = self.T(p)
            if not z3.is_expr(t):
                return p
            ats, seen, st = {}, set(), [t]
            while st:
                u = st.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if u.num_args() == 1 and z3.is_int(u.arg(0)) and z3.is_real(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    ats.setdefault(u.arg(0).get_id(), [u.arg(0), []])[1].append(u)
                elif u.num_args() == 2 and z3.is_real(u) and u.decl().name() in self.wins:
                    for k in (0, 1):
                        ats.setdefault(u.arg(k).get_id(), [u.arg(k), []])[1].append(u)
                st.extend(u.children())
            ixs = sorted((self.ring.ix(x) if not z3.is_int_value(x) else x.as_long() for x, _ in ats.values()), key=lambda x: (len(str(x)), str(x)))
            sub = None
            for k, a in enumerate(ixs):
                if isinstance(a, int):
                    continue
                for b in ixs[:k]:
                    if isinstance(b, int) or isinstance(self.ring.ix(sub_(a, b)), int):
                        continue
                    for c in (0, 1, -1):
                        if (a.get_id(), b.get_id(), c) not in self.nomerge:
                            if self.decide(a == b + c) is True:
                                sub = (a, self.ring.ix(add(b, c)))
                                break
                            self.nomerge.add((a.get_id(), b.get_id(), c))
                            self.keep.append((a, b))
                    if sub:
                        break
                if sub:
                    break
            if sub is None:
                return p
            bad, moved = [], {}
            for x, us in ats.values():
                if isinstance(self.ring.ix(sub_(self.ring.ix(x), sub[0])), int):
                    nx = self.ring.ix(add(sub[1], self.ring.ix(sub_(self.ring.ix(x), sub[0]))))
                    for u in us:
                        if u.num_args() == 2:
                            moved.setdefault(u.get_id(), (u, {}))[1].update({k: nx for k in (0, 1) if u.arg(k).eq(x)})
                            continue
                        q = self.reindex(u, nx)
                        if q is not None:
                            bad.append((u, q))
            for u, mv in moved.values():
                bad.append((u, self.T(self.env.window(self, self.wins[u.decl().name()], *[mv.get(k, u.arg(k) if not z3.is_int_value(u.arg(k)) else u.arg(k).as_long()) for k in (0, 1)]))))
            if not bad:
                return p
            t = z3.substitute(t, *[(u, zr(v)) for u, v in bad])
            self.keep.append(t)
            p = self.ring.of(t)
        return p

    def reindex(self, u, ix):
        a = self.ring.byt.get(u.get_id())
        n = u.decl().name()
        if n.startswith('IN_'):
            return self.T(self.input(int(n[3:]), ix))
        if a is not None and a.kind == 'ghost':
            return self.T(self.env.ghostvar(self, a.data[0], ix))
        return None

    def indexed(self, t):
        """a value at a position not seen in this form before"""
        if t.num_args() == 2 and t.decl().name() in self.wins:
            return self.env.window(self, self.wins[t.decl().name()], *[self.ring.ix(z3.simplify(t.arg(k))) for k in (0, 1)])
        if t.num_args() != 1 or not z3.is_int(t.arg(0)):
            return None
        n, ix = t.decl().name(), self.ring.ix(z3.simplify(t.arg(0)))
        if n.startswith('IN_'):
            return self.input(int(n[3:]), ix)
        if n[0] == 'g' and n[1:].isdigit():
            return self.env.ghostvar(self, self.env.sym_.rep[int(n[1:])], ix)
        if n.startswith('A!'):
            u = t.decl()(zi(ix))
            if not u.eq(t):
                return self.P(u)
        return None

    def resolve(self, p):
        """selections settled at this point"""
        for _ in range(40):
            t = self.T(p)
            if not z3.is_expr(t):
                return p
            sub = None
            for c in self.iconds(t):
                q = self.decide(c)
                if q is not None:
                    sub = (c, z3.BoolVal(q))
                    break
            if sub is None:
                return p
            t = self.tidy(z3.substitute(t, sub))
            self.keep.append(t)
            p = self.ring.of(t)
        return p

    def tidy(self, t):
        """positions in which a settled selection is left, in canonical form again"""
        out, seen, st = [], set(), [t]
        while st:
            u = st.pop()
            if u.get_id() in seen or not z3.is_app(u):
                continue
            seen.add(u.get_id())
            if z3.is_int(u) and u.num_args():
                if settled(u):
                    w = self.ring.ix(z3.simplify(u))
                    out.append((u, z3.IntVal(w) if isinstance(w, int) else w))
                continue
            st.extend(u.children())
        if out:
            self.keep.append(out)
            t = z3.substitute(t, *out)
        return t

    def iconds(self, t):
        """integer conditions of the selections in a term"""
        out, seen, st = [], set(), [t]
        while st:
            u = st.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app_of(u, z3.Z3_OP_ITE):
                cs = [u.arg(0)]
                while cs:
                    c = cs.pop()
                    if c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                        cs += c.children()
                    elif z3.is_const(c) and str(c).startswith('rch.'):
                        out.append(c)
                    elif z3.is_eq(c) or z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c):
                        if intonly(c):
                            out.append(c)
            st.extend(u.children())
        return out

    def subst(self, p, a, u):
        t = z3.substitute(self.T(p), (self.ring.atoms[a].t, zr(self.T(u))))
        self.keep.append(t)
        return self.ring.of(t)

    def cond(self, c):
        """canonical form of a condition"""
        if isinstance(c, bool):
            return c
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            return And(*[self.cond(x) for x in c.children()])
        if k == z3.Z3_OP_OR:
            return Or(*[self.cond(x) for x in c.children()])
        if k == z3.Z3_OP_NOT:
            return Not(self.cond(c.arg(0)))
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if c.num_args() == 2 and z3.is_real(c.arg(0)):
            op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_EQ: '==', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}.get(k)
            if op:
                p, q = self.P(c.arg(0)), self.P(c.arg(1))
                if op[0] == '>':
                    p, q, op = q, p, '<' + op[1:]
                return self.rel(op, p, q)
        return c

    def axioms_for(self, p, depth):
        for a, t in self.ghosts(p, 'ext').items():
            key = ('win', a, len(self.members))
            if key not in self.unfolded:
                self.unfolded[key] = True
                old, self.ctxcond = self.ctxcond, True
                try:
                    for f in self.env.window_facts(self, t):
                        self.assume(f)
                finally:
                    self.ctxcond = old
        if depth == 0:
            return
        for a, t in self.ghosts(p).items():
            x, i = t.data
            key = ('unf', a)
            if self.unfolded.get(key, 0) >= depth:
                continue
            self.unfolded[key] = depth
            old, self.ctxcond = self.ctxcond, True
            try:
                g, u = self.env.unfold(self, x, i)
            finally:
                self.ctxcond = old
            if g is False:
                continue
            self.assume(Implies(g, t.t == zr(self.T(u))))
            self.axioms_for(u, depth - 1)

    # -- loops -----------------------------------------------------------------------------
    def header(self, h, inc):
        Exec.header(self, h, inc)
        self.curblock = h
        self.env.set_values(self, h, self.st)

    def view_entry(self, h, r, st, ent):
        Exec.view_entry(self, h, r, st, ent)
        old = {k: self.R.get(k) for k in ent}
        self.R.update(ent)
        self.env.value_obligs(self, h, r, st, 'value-entry')
        for k in ent:
            if old[k] is None:
                self.R.pop(k)
            else:
                self.R[k] = old[k]

    def pin_ints(self, h, st):
        """express what the loop counts by one variable, using the equalities among its invariants"""
        eqs = [v for v in self.invs.get(h, ()) if isinstance(v, Lin) and v.op == '==']
        vary = [('p', i.res) for i in self.phis(h) if i.ty in ('i32', 'i64')] + [('q', i.res) for i in self.phis(h) if i.ty == 'ptr']
        for k in sorted(self.plan.mods.get(h, ()), key=str):
            if k[0] == 'c' and self.celltys.get(k) in ('i32', 'i64'):
                vary.append(('m', k[1], k[2]))
            elif k[0] == 'c' and self.celltys.get(k) == 'ptr':
                vary.append(('mq', k[1], k[2]))
            elif k[0] == 'W':
                vary.append(k)
        # rows over vary + others
        rows = [dict(v.cs) | {None: v.c} for v in eqs]
        base = vary[0] if vary else None
        if base and base[0] == 'p' and z3.is_expr(self.R[base[1]]):
            self.bases.append(self.R[base[1]])
        used = []
        for x in [v for v in vary if v != base] + ([base] if base else []):
            piv = None
            for n, rw in enumerate(rows):
                if abs(rw.get(x, 0)) == 1 and not any(v in rw and rw[v] for v, _ in used):
                    piv = n
                    break
            if piv is None:
                continue
            rw = rows.pop(piv)
            s = rw[x]
            sol = {v: -k * s for v, k in rw.items() if v != x and k}     # x = sum sol
            def sb(d):
                k = d.pop(x, 0)
                if k:
                    for v, q in sol.items():
                        d[v] = d.get(v, 0) + k * q
                return {v: q for v, q in d.items() if q or v is None}
            rows = [sb(r) for r in rows]
            used = [(v, sb(d)) for v, d in used]
            used.append((x, sol))
        for x, sol in used:
            try:
                t = sol.get(None, 0)
                for v, k in sol.items():
                    if v is not None:
                        t = add(t, mulc(vget(self, v, st, self.R), k))
                t = self.ring.ix(t)
                if x[0] == 'p':
                    old = self.R[x[1]]
                    if isinstance(old, FV):
                        continue
                    if z3.is_expr(t) and z3.is_expr(old):
                        self.setr(t, *self.range(old))
                    self.assume(cmp('==', old, t))
                    self.R[x[1]] = t
                elif x[0] in ('q', 'mq'):
                    k = ('c', x[1], x[2]) if x[0] == 'mq' else None
                    pv = self.R[x[1]] if k is None else st.m.get(k)
                    if len(pv.alts) == 1 and pv.alts[0][1] not in (None, '?'):
                        g, o, bs, e, b = pv.alts[0]
                        self.assume(cmp('==', e, t))
                        nv = PV([(g, o, bs, t, b)])
                        if k is None:
                            self.R[x[1]] = nv
                        else:
                            st.m[k] = nv
                elif x[0] == 'm':
                    if z3.is_expr(t):
                        self.setr(t, -2 ** 31, 2 ** 31 - 1)
                    st.m[('c', x[1], x[2])] = t
                elif x[0] == 'W':
                    if z3.is_expr(t):
                        self.setr(t, 0, 2 ** 31)
                    st.m[x] = t
            except NA:
                pass


def intabs(f, memo, keep):
    """the condition with everything about data replaced by propositions; None if nothing is left"""
    k = f.get_id()
    if k in memo:
        return memo[k]
    keep.append(f)
    if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
            z3.is_bool(f) and f.num_args() and f.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT) and z3.is_bool(f.arg(1)):
        a = [intabs(c, memo, keep) for c in f.children()]
        r = f.decl()(*a) if f.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*a) if f.decl().kind() == z3.Z3_OP_AND else z3.Or(*a))
    elif intonly(f):
        r = f
    else:
        r = z3.Bool('data!%d' % k)
    memo[k] = r
    return r


def intonly(f):
    """no data-dependent real terms inside"""
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_real(t) and not z3.is_rational_value(t) and not (z3.is_app_of(t, z3.Z3_OP_TO_REAL) or z3.is_const(t) and str(t).startswith('opt')):
            return False
        st.extend(t.children())
    return True


# ---- which ghost value a variable holds ----------------------------------------------
def fp_items(ex, h, invs, outmode=()):
    pinned = {q[1] for v in invs.get(h, ()) if isinstance(v, Lin) and v.op == '==' for q, k in dict(v.cs).items() if q[0] == 'p' and abs(k) == 1}
    out = [('p', i.res) for i in ex.phis(h) if i.ty == 'double' and (i.res not in ex.int_doubles() or i.res not in pinned)]
    for k in sorted(ex.plan.mods.get(h, ()), key=str):
        if k[0] == 'c' and ex.celltys.get(k) == 'double':
            out.append(('m', k[1], k[2]))
        if k[0] == 'a' and ex.objs[k[1]].kind in ('heap', 'alloca', 'stack') or k[0] == 'a' and k[1].startswith('OUT') and int(k[1][3:]) in outmode:
            out.append(k)
    return out


class Row:
    __slots__ = ('run', 'ints', 'vals', 'back')


def trace(lib, mods, mod, fn, sp, ex, voc, items, sy, seed=1, want=40, pin=None):
    """states at the loop heads, with the definition evaluated on the same data"""
    rng = random.Random(seed)
    import traces, oracle
    tr = traces.Tracer(fn, ex.cfg, {h: v for h, (v, s) in voc.items()})
    rows = {h: [] for h in ex.cfg.headers}
    runs = []
    f, kinds, kw = specs.SPECS[sp.name]
    t0, tries = time.process_time(), 0
    while len(runs) < 16 and tries < 200 and time.process_time() - t0 < 15:
        tries += 1
        opts = option_samples(rng, sp)
        opts = [float(round(o)) if k < len(kinds) and kinds[k] == 'i' else o for k, o in enumerate(opts)]
        if kw.get('even'):
            opts[0] = float(2 * int(opts[0]))
        for k, v in (pin or {}).items():
            opts[k] = float(v)
        o2 = oracle.integral(opts, kinds, kw)
        if o2 is None:
            continue
        it = interp.Interp([mod] + [m for m in lib.mods.values()])
        it.lib = lib
        OPT = IObjd('OPT', 8 * sp.nopt, {8 * k: o for k, o in enumerate(opts)})
        try:
            start = it.call('ti_%s_start' % sp.name, [(OPT, 0)])
        except (interp.Trap, interp.CppThrow):
            continue
        if start > 150:
            continue
        n = max(start, 0) + rng.choice([1, 2, 3, 5, 8, 13, 20, 26])
        ins = make_inputs(rng, sp, n)
        INP = IObjd('INP', 8 * sp.nin, {})
        OUTP = IObjd('OUTP', 8 * sp.nout, {})
        for k, s in enumerate(ins):
            o = IObjd('IN%d' % k, 8 * n, {8 * j: x for j, x in enumerate(s)}, 'ro')
            INP.m[8 * k] = (o, 0)
            it.objmap['IN%d' % k] = o
        nout = max(0, n - start)
        for k in range(sp.nout):
            o = IObjd('OUT%d' % k, 8 * nout, {}, 'out')
            OUTP.m[8 * k] = (o, 0)
            it.objmap['OUT%d' % k] = o
        it.objmap.update(OPT=OPT, INP=INP, OUTP=OUTP)
        tr.ctx = {'start': start, 'nout': nout}
        got = []

        def hook(fn_, b, R_, prev):
            if fn_ is not fn or b not in rows:
                return
            w = Row()
            w.ints = [tr.get(it, v, R_) for v in voc[b][0]]
            w.vals = []
            w.back = prev is not None and (prev, b) in ex.cfg.back
            for q in items[b]:
                if q[0] == 'p':
                    x = R_.get(q[1])
                elif q[0] == 'a':
                    ob = it.objmap.get(q[1])
                    w.vals.append(None if ob is None else cells(ob, q[2]))
                    continue
                else:
                    ob = it.objmap.get(q[1])
                    x = ob.m.get(q[2], 0.0) if ob is not None else None
                w.vals.append(float(x) if isinstance(x, (int, float)) else None)
            got.append((b, w))
        it.hook = hook
        try:
            rc = it.run(mod, fn, [n, (INP, 0), (OPT, 0), (OUTP, 0)])
        except (interp.Trap, interp.CppThrow):
            continue
        if rc != 0 or not got and ex.cfg.headers:
            continue
        c = Conc(o2, ins)
        runs.append((c, n))
        for b, w in got:
            w.run = len(runs) - 1
            rows[b].append(w)
    return rows, runs


def cells(ob, base):
    n = max((ob.size - base) // 8, 0)
    out = []
    for j in range(min(n, 64)):
        x = ob.m.get(base + 8 * j, 0.0 if ob.zero else None)
        if type(x) is int and x or isinstance(x, tuple):
            return (j, out)         # another member
        out.append(float(x) if isinstance(x, (int, float)) else None)
    return (n, out)


def IObjd(name, size, m, kind=None):
    o = interp.Obj(name, size, kind) if kind else interp.Obj(name, size)
    o.m = m
    return o


def imms(ex):
    """small integer constants of the code, and their neighbours"""
    out = set()
    for b in ex.cfg.rpo:
        for i in ex.fn.blocks[b].instrs:
            if i.op == 'icmp':
                for a in i.args:
                    if a[0] == 'i' and 1 < a[1] < 200:
                        out |= {a[1] - 1, a[1], a[1] + 1}
    return out


def close(a, b):
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)) < math.inf


class Finder:
    def __init__(self, ex, h, voc, items, rows, runs, sy):
        self.ex, self.h, self.items, self.sy = ex, h, items, sy
        v, vary = voc
        rng = random.Random(7)
        self.all = rows
        if len(rows) > 90:
            byr = {}
            for w in rows:
                byr.setdefault(w.run, []).append(w)
            sel = []
            for l in byr.values():
                sel += l[:3] + rng.sample(l, min(len(l), max(3, 90 // len(byr)))) + l[-1:]
            rows = list(dict.fromkeys(sel))
        self.rows, self.runs, self.voc, self.poor = rows, runs, voc, {}
        good = [k for k in range(len(v)) if all(w.ints[k] is not None for w in rows)]
        good = [k for k in good if v[k][0] not in ('q', 'mq') or any(w.ints[k] for w in rows)]
        self.idx = {}
        def put(vals, cs, c):
            vals = tuple(vals)
            if vals not in self.idx and any(x >= -2 for x in vals):
                self.idx[vals] = (cs, c)
        self.good = good
        for c in (-1, 0, 1, -2, 2, -3, 3):
            for k in sorted(good, key=lambda k: k not in vary):
                put([w.ints[k] + c for w in rows], [(v[k], 1)], c)
        non = [k for k in good if k not in vary]
        for c in [-1, 0, 1] + sorted(imms(ex)):
            put([c] * len(rows), [], c)
        good = [k for k in good if v[k] != ('sym', 'nout')]
        non = [k for k in non if v[k] != ('sym', 'nout')]
        for c in (0, -1, 1, -2, 2):
            for k in sorted(good, key=lambda k: k not in vary):
                for q in non:
                    if q != k:
                        put([w.ints[k] - w.ints[q] + c for w in rows], [(v[k], 1), (v[q], -1)], c)
        self.I = list(self.idx)
        # the larger of a moving and a fixed index
        vs = self.vs = {v[k] for k in vary}
        fix = [iv for iv in self.I if not any(x in vs for x, _ in self.idx[iv][0])]
        mov = [iv for iv in self.I if iv not in set(fix) and len(self.idx[iv][0]) == 1 and abs(self.idx[iv][1]) <= 1]
        for a in mov:
            for b in fix:
                m = tuple(max(x, y) for x, y in zip(a, b))
                if m not in self.idx:
                    self.idx[m] = (['max', self.idx[a], self.idx[b]], 0)
        self.IM = [iv for iv in self.idx if self.idx[iv][0][:1] == ['max']]

    def nodeval(self, node, w, i):
        c, n = self.runs[w.run]
        if i >= n:
            raise seq.Undefined('range')
        x = c.build(node)
        if i < 0 and not (isinstance(x, seq.Cum) or isinstance(x, seq.Rec) and x.before is not None):
            raise seq.Undefined('range')
        return x.at(i)

    def vec(self, node, ivec):
        """node at the index in every row, or None"""
        out = []
        for w, i in zip(self.rows, ivec):
            try:
                x = self.nodeval(node, w, i)
            except (seq.Undefined, IndexError, ZeroDivisionError):
                return None
            if isinstance(x, bool):
                return None
            out.append(x)
        return out

    def matches(self, node, ivec, vals):
        for w, i, v in zip(self.rows, ivec, vals):
            try:
                x = self.nodeval(node, w, i)
            except (seq.Undefined, IndexError, ZeroDivisionError):
                return False
            if isinstance(x, bool) or not close(x, v):
                return False
        return True

    def single(self, nodes, rs, vals):
        """a definition that gives the values in some of the rows"""
        for x in nodes:
            for iv in self.I:
                for r in rs:
                    try:
                        y = self.nodeval(x, self.rows[r], iv[r])
                    except (seq.Undefined, IndexError, ZeroDivisionError):
                        break
                    if isinstance(y, bool) or not close(y, vals[r]):
                        break
                else:
                    cs, c = self.idx[iv]
                    return Template([(1, x, cs, c)])
        return (self.sums(nodes, rs, vals, 0) or [None])[0]

    def all_candidates(self):
        out = [self.candidates(k) for k in range(len(self.items))]
        self.ends(out)
        for k, c in enumerate(out):
            if not c and self.items[k][0] != 'a':
                out[k] = self.linear(k) or self.poor.get(k, [])
        return out

    def candidates(self, k):
        """templates for state item k, most plausible first"""
        if self.items[k][0] == 'a':
            return self.arrays(k)
        vals = [w.vals[k] for w in self.rows]
        out = []
        wins = self.windows(vals)
        if wins:
            return wins
        if any(v is None or v != v or math.isinf(v) for v in vals):
            return out
        if all(v == vals[0] for v in vals) and len(vals) > 3:
            out.append(Template([], Fraction(vals[0])))
        nodes = [x for x in self.sy.nodes if not isinstance(x, (seq.Const, seq.Idx, seq.Lag, seq.Prev, seq.Ext))]
        nodes.sort(key=lambda x: (not isinstance(x, (seq.Rec, seq.Cum, seq.From)), isinstance(x, seq.Pt)))
        nodes = [x for x in nodes if not isinstance(x, seq.In)] + [x for x in nodes if isinstance(x, seq.In)]
        order = sorted(range(len(self.rows)), key=lambda r: -abs(vals[r]))
        r0 = order[0] if order else None
        if r0 is None:
            return out
        for x in nodes:
            for iv in self.I:
                try:
                    y = self.nodeval(x, self.rows[r0], iv[r0])
                except (seq.Undefined, IndexError, ZeroDivisionError):
                    continue
                if isinstance(y, bool) or not close(y, vals[r0]):
                    continue
                if self.matches(x, iv, vals):
                    cs, c = self.idx[iv]
                    out.append(Template([(1, x, cs, c)]))
                    if len(out) > 6:
                        return out
        if out:
            return out
        # a ghost that is not defined from the first visit on
        part = []
        for x in nodes:
            if isinstance(x, (seq.Cum, seq.In)):
                continue
            for iv in self.I:
                if self.vs and not any(v in self.vs for v, _ in self.idx[iv][0]):
                    continue
                oth = []
                okk = 0
                for r, (w, i, v) in enumerate(zip(self.rows, iv, vals)):
                    st = self.runs[w.run][0].build(x).start
                    if i < st:
                        oth.append(r)
                        continue
                    try:
                        y = self.nodeval(x, w, i)
                    except (seq.Undefined, IndexError, ZeroDivisionError):
                        break
                    if isinstance(y, bool) or not close(y, v):
                        break
                    okk += 1
                else:
                    if oth and okk > 2:
                        part.append((-okk, len(part), x, iv, oth))
        part.sort(key=lambda q: q[:2])
        if part and isinstance(part[0][2], seq.Sum):
            out = self.sums([part[0][2].cum], range(len(self.rows)), vals)
            if out:
                return out
        if part and -part[0][0] * 10 < 7 * len(self.rows):
            out = self.sums(nodes, range(len(self.rows)), vals)
            if out and -part[0][0] * 4 >= len(self.rows):
                out += self.partial(part, nodes, vals)
            if out:
                return out
        if part and -part[0][0] * 4 < len(self.rows):
            self.poor[k] = self.partial(part, nodes, vals)
            return []
        return self.partial(part, nodes, vals) or self.sums(nodes, range(len(self.rows)), vals) or self.scaled(nodes, vals) or self.earlier(nodes, vals)

    def earlier(self, nodes, vals):
        """the input of an earlier bar, a constant before there is one"""
        for x in nodes:
            if not isinstance(x, seq.In):
                continue
            for iv in self.I:
                if self.vs and not any(v in self.vs for v, _ in self.idx[iv][0]):
                    continue
                oth = [r for r in range(len(vals)) if iv[r] < 0]
                ins = [r for r in range(len(vals)) if iv[r] >= 0]
                if not oth or len(ins) < 3 or any(vals[r] != vals[oth[0]] for r in oth):
                    continue
                try:
                    if all(close(self.nodeval(x, self.rows[r], iv[r]), vals[r]) for r in ins):
                        return [Template([(1, x, *self.idx[iv])], 0, Fraction(vals[oth[0]]))]
                except (seq.Undefined, IndexError, ZeroDivisionError):
                    continue
        return []

    def scaled(self, nodes, vals):
        """sums divided by an option"""
        out = []
        for k in range(len(self.sy.opts)):
            o = [self.runs[w.run][0].env.get('iopt%d' % k) for w in self.rows]
            if None in o or len(set(o)) < 3 or min(o) < 1:
                continue
            for t in self.sums(nodes, range(len(self.rows)), [x * y for x, y in zip(vals, o)], 2):
                inv = lambda ex, sg, k=k: ex.ring.scale(ex.prim('/', [ex.ring.const(1), ex.ring.ofint(z3.Int('iopt%d' % k))]), sg)
                t.parts = [(lambda ex, sg=sg, inv=inv: inv(ex, sg), x, cs, c) for sg, x, cs, c in t.parts]
                out.append(t)
        return out

    def winsetup(self):
        """positions that may be ends of windows"""
        if hasattr(self, 'WI'):
            return
        v, vary = self.voc
        vs = self.vs
        nd = {(x.op, self.sy.num[id(x.x)]): ext_of(x) for x in self.sy.nodes if isinstance(x, seq.ExtAge)}
        self.places = {(x.op, self.sy.num[id(x.x)]): x for x in self.sy.nodes if isinstance(x, seq.ExtAge)}
        nd.update({(x.op, self.sy.num[id(x.x)]): x for x in self.sy.nodes if isinstance(x, seq.Ext)})
        self.wnodes = list(nd.values())
        self.wmemo = {}
        z = (0,) * len(self.rows)
        if z in self.idx:
            self.idx[z] = ([], 0)
        I = [iv for iv in self.I if self.idx[iv][0] and abs(self.idx[iv][1]) <= 1 or not self.idx[iv][0] and self.idx[iv][1] in (0, 1)]
        had = set(I)
        for k in self.good:
            if k in vary or v[k] == ('sym', 'nout'):
                continue
            for q in vary:
                if q in self.good:
                    for c in (0, 1, -1):
                        iv = tuple(w.ints[k] - w.ints[q] + c for w in self.rows)
                        if iv not in had and iv not in self.idx and max(iv) >= 0:
                            had.add(iv)
                            self.idx[iv] = ([(v[k], 1), (v[q], -1)], c)
                            I.append(iv)
        self.WI = I
        self.WB = [iv for iv in I if any(x in vs for x, _ in self.idx[iv][0])]
        self.WA = I + [iv for iv in self.IM if self.idx[iv][0][2] == ([], 0)]
        self.wrows = range(len(self.rows))
        self.wback = [r for r in self.wrows if self.rows[r].back]
        random.Random(3).shuffle(self.wback)

    def ivars(self, iv):
        cs = self.idx[iv][0]
        return {u for e in cs[1:] for u, _ in e[0]} if cs[:1] == ['max'] else {u for u, _ in cs}

    def icost(self, iv):
        cs, c = self.idx[iv]
        return 2.5 if cs[:1] == ['max'] else len(cs) + abs(c)

    def W(self, x, r, a, b):
        w = self.rows[r]
        c, n = self.runs[w.run]
        q = (id(x), w.run, a, b)
        m = self.wmemo
        if q not in m:
            try:
                y = c.build(x.x)
                m[q] = None if not 0 <= a <= b < n else (max if x.op == 'max' else min)(y.at(j) for j in range(a, b + 1))
            except (seq.Undefined, IndexError, ZeroDivisionError):
                m[q] = None
        return m[q]

    def ends_of(self, x, vals, keys=()):
        """windows whose extreme is the value at the repeated visits"""
        ku = set().union(*[self.ivars(k) for k in keys]) & self.vs
        wb = set(self.WB)
        for b in self.WI:
            if ku & self.ivars(b):
                continue
            for a in self.WA if b in wb else self.WB:
                if ku & self.ivars(a):
                    continue
                nd = 0
                for r in self.wback:
                    m = self.W(x, r, a[r], b[r])
                    if m is None or vals[r] is None or not close(m, vals[r]):
                        break
                    nd += a[r] < b[r]
                else:
                    if nd >= 4:
                        yield a, b

    def keyed(self, x, a, b, vals, kv):
        """does the position point at the extreme whenever it is in the window: the other visits"""
        rows = self.wrows
        ms = [r for r in rows if not self.rows[r].back and self.W(x, r, a[r], b[r]) is not None and kv[r] < a[r]]
        out = set(ms)
        for r in rows:
            if r in out or self.W(x, r, a[r], b[r]) is None:
                continue
            if not a[r] <= kv[r] <= b[r] or vals[r] is None:
                return None
            try:
                if not close(self.nodeval(x.x, self.rows[r], kv[r]), vals[r]):
                    return None
            except (seq.Undefined, IndexError, ZeroDivisionError):
                return None
        return ms

    def placed(self, x, a, b, kv, ms):
        """is the position the last place of the extreme"""
        p = self.places.get((x.op, self.sy.num[id(x.x)]))
        if p is None:
            return None
        for r in self.wrows:
            if r in ms or self.W(x, r, a[r], b[r]) is None:
                continue
            c, n = self.runs[self.rows[r].run]
            y = c.build(x.x)
            v = [y.at(j) for j in range(a[r], b[r] + 1)]
            m = max(v) if x.op == 'max' else min(v)
            if kv[r] != b[r] - v[::-1].index(m):
                return None
        return p

    def windows(self, vals):
        """extremes of windows that give the values"""
        self.winsetup()
        rows, W = self.wrows, self.W
        if not self.wnodes or len(self.wback) < 6:
            return []
        out = []
        for x in self.wnodes:
            for a, b in self.ends_of(x, vals):
                miss = [r for r in rows if not self.rows[r].back and W(x, r, a[r], b[r]) is not None and not (vals[r] is not None and close(W(x, r, a[r], b[r]), vals[r]))]
                used = (self.ivars(a) | self.ivars(b)) & self.vs
                alt = []
                for kv in self.WI:
                    u = self.ivars(kv) & self.vs
                    if u and not u & used:
                        ms = self.keyed(x, a, b, vals, kv)
                        if ms is not None and not set(miss) - set(ms):
                            alt.append((kv, ms))
                            if len(alt) > 2:
                                break
                for n, (kv, ms) in enumerate(alt or [(None, miss)]):
                    if miss and kv is None:
                        continue
                    off = [r for r in rows if r in ms or W(x, r, a[r], b[r]) is None]
                    inf = math.inf if x.op == 'min' else -math.inf
                    inf = inf if off and all(vals[r] == inf for r in off) else None
                    idle = kv is not None and inf is None and bool(off) and all(kv[r] <= a[r] for r in off)
                    t = WinTemplate(x, self.idx[a], self.idx[b], self.idx[kv] if kv else None, bool(ms), idle, inf)
                    t.place = self.placed(x, a, b, kv, ms) if kv else None
                    cost = self.icost(a) + self.icost(b) + 10 * (kv is None) + 2 * bool(ms) + 3 * any(W(x, r, a[r], b[r]) is None for r in self.wback) + n + 3 * bool(off and inf is None and not idle) - 20 * (t.place is not None)
                    out.append((cost, len(out), t))
        out.sort(key=lambda q: q[:2])
        return [t for _, _, t in out[:5]]

    def pointed(self):
        """positions the loop keeps of extreme values"""
        self.winsetup()
        if not self.wnodes or len(self.wback) < 6:
            return {}
        out = {}
        for x in self.wnodes:
            for kv in self.WI:
                cs, c = self.idx[kv]
                if len(cs) != 1 or cs[0][0] not in self.vs or abs(c) > 1 or len(set(kv)) < 2:
                    continue
                vals = []
                for w, i in zip(self.rows, kv):
                    try:
                        vals.append(self.nodeval(x.x, w, i))
                    except (seq.Undefined, IndexError, ZeroDivisionError):
                        vals.append(None)
                if any(vals[r] is None for r in self.wback):
                    continue
                best = []
                for a, b in self.ends_of(x, vals, [kv]):
                    ms = self.keyed(x, a, b, vals, kv)
                    if ms is None or all(a[r] == kv[r] for r in self.wback) or all(b[r] == kv[r] for r in self.wback):
                        continue
                    cost = self.icost(a) + self.icost(b) + 2 * bool(ms)
                    t = WinTemplate(x, self.idx[a], self.idx[b], self.idx[kv], bool(ms), False, None)
                    t.place = self.placed(x, a, b, kv, ms)
                    best.append((cost, len(best), t))
                if best:
                    q = ('f', x.op, cs[0][0])
                    if q not in out:
                        out[q] = [t for _, _, t in sorted(best, key=lambda q: q[:2])[:3]]
        return out

    def partial(self, part, nodes, vals):
        out = []
        for _, _, x, iv, oth in part:
            cs, c = self.idx[iv]
            if all(vals[r] == vals[oth[0]] for r in oth):
                out.append(Template([(1, x, cs, c)], 0, Fraction(vals[oth[0]])))
            elif len(oth) > 3 and len(out) < 3:
                t = self.single(nodes, oth, vals)
                if t is not None:
                    out.append(Template([(1, x, cs, c)], 0, t))
            out.append(Template([(1, x, cs, c)], 0, None))
            if len(out) > 6:
                return out
        return out

    # -- arrays
    def afit(self, pts, vary=True, most=3):
        """linear expressions of the loop's variables that take the given values: pts = [(row, value)]"""
        v, vs = self.voc[0], set(self.voc[1])
        good = [k for k in range(len(v)) if all(self.rows[r].ints[k] is not None for r, _ in pts)]
        if not vary:
            good = [k for k in good if k not in vs and v[k] != ('sym', 'nout')]
        out = []
        col = {k: [self.rows[r].ints[k] for r, _ in pts] for k in good}
        tgt = [x for _, x in pts]
        if len(set(tgt)) == 1:
            out.append(([], tgt[0]))
        seen = {}
        for k in good:
            if len(set(col[k])) > 1 or len(col[k]) == 1:
                seen.setdefault(tuple(col[k]), k)
        good = list(seen.values())
        for n in (1, 2, 3):
            if len(out) >= most:
                break
            for ks in itertools.combinations(good, n):
                for sg in itertools.product((1, -1), repeat=n):
                    d = {t - sum(s * col[k][i] for s, k in zip(sg, ks)) for i, t in enumerate(tgt)}
                    if len(d) == 1:
                        c = d.pop()
                        if abs(c) <= 4:
                            out.append(([(v[k], s) for s, k in zip(sg, ks)], c))
        return out

    def segments(self, arr, node, s, w):
        """runs of cells that are node(s*j + c): [(lo, hi, c)]"""
        c_, n = self.runs[w.run]
        try:
            x = c_.build(node)
        except (seq.Undefined, ZeroDivisionError, IndexError):
            return None
        byv = {}
        for i in range(max(x.start, 0), n):
            try:
                y = x.at(i)
            except (seq.Undefined, ZeroDivisionError, IndexError):
                continue
            if isinstance(y, bool) or y != y:
                continue
            byv.setdefault('%.7g' % y, []).append((i, y))
        out, j = [], 0
        def cand(a):
            r = []
            for key in {'%.7g' % a, '%.7g' % (a * (1 + 5e-8)), '%.7g' % (a * (1 - 5e-8))}:
                r += [i for i, y in byv.get(key, ()) if close(y, a)]
            return set(r)
        cs = [cand(a) if a is not None else set() for a in arr]
        while j < len(arr):
            best = None
            for i in cs[j]:
                e = j + 1
                while e < len(arr) and i + s * (e - j) in cs[e]:
                    e += 1
                if best is None or e > best[0]:
                    best = (e, i - s * j)
            if best is None:
                j += 1
                continue
            out.append((j, best[0], best[1]))
            j = best[0]
        return out

    def arrays(self, k):
        rows = [(r, w.vals[k]) for r, w in enumerate(self.rows) if w.vals[k] is not None]
        if self.items[k][1].startswith('A:') and rows:
            m = min(n for r, (n, a) in rows)        # other members may follow
            rows = [(r, (m, a[:m])) for r, (n, a) in rows]
        known = [(r, n, a) for r, (n, a) in rows if any(x is not None for x in a)]
        known = [(r, n, a) for r, n, a in known if len({x for x in a if x}) == len([x for x in a if x])]
        if not known:
            return []
        known.sort(key=lambda q: -len([x for x in q[2] if x]))
        nodes = [x for x in self.sy.nodes if not isinstance(x, (seq.Const, seq.Idx, seq.Lag, seq.Prev, seq.Cum))]
        steps = {id(x.step) for x in nodes if isinstance(x, seq.Rec)} | {id(x.init) for x in nodes if isinstance(x, seq.Rec)}
        nodes.sort(key=lambda x: (isinstance(x, seq.In), id(x) in steps, not isinstance(x, (seq.Rec, seq.From))))
        r0, n0, a0 = known[0]
        if len([x for x in a0 if x]) < 2:
            return []
        res = []
        # cells that hold nothing yet read as zero
        for node in nodes:
            for s in (1, -1):
                sg = self.segments(a0, node, s, self.rows[r0])
                if not sg or len(sg) > 2 or sum(h - l for l, h, c in sg) < max(2, len([x for x in a0 if x]) - 1):
                    continue
                for n, t in enumerate(self.pieces(node, s, known, rows)):
                    k_ = self.cover(t, known)
                    if k_ > 0:
                        res.append((-k_, n, len(res), t))
        for n, t in enumerate(self.circular(nodes, known)):
            k_ = self.cover(t, known)
            if k_ > 0:
                res.append((-k_, n + .5, len(res), t))
        if not res:
            return []
        res.sort(key=lambda q: q[:3])
        top = [q for q in res if q[0] * 10 <= res[0][0] * 9]
        return [q[3] for q in sorted(top, key=lambda q: (q[1], q[2]))][:6]

    def circular(self, nodes, known):
        """a ring: the cells on either side of a position hold the latest values, in either direction"""
        v, vary = self.voc
        caps = [q for q in self.afit([(r, n) for r, n, a in known], False) if q[0]][:1]
        if not caps:
            return []
        cap = caps[0]
        capv = {r: n for r, n, a in known}
        ks = [k for k in vary if all(self.rows[r].ints[k] is not None for r in capv)]
        pos = [k for k in ks if all(0 <= self.rows[r].ints[k] <= n for r, n in capv.items()) and len({self.rows[r].ints[k] for r in capv}) > 2]
        idx = {}
        for k in ks:
            idx.setdefault(tuple(self.rows[r].ints[k] for r in capv), k)
        big = sorted(known, key=lambda q: -len({x for x in q[2] if x}))[:4]
        out = []
        for node in nodes:
            for p in pos:
                for i in idx.values():
                    if i == p:
                        continue
                    for s in (-1, 1):
                        for d, e in ((1, 0), (1, -1), (0, 0), (0, -1), (1, 1), (0, 1)):
                            c1 = ([(v[i], 1), (v[p], -s)], e)
                            c2 = self.minus(c1, cap, 1)
                            if s == -1:
                                c1, c2 = c2, c1
                            P_ = ([(v[p], 1)], d)
                            f = node.start if seq.num(node.start) else 0
                            t = ArrTemplate([(0, P_, Fraction(1), node, s, c1, f, Fraction(0)), (P_, cap, Fraction(1), node, s, c2, f, Fraction(0))])
                            try:
                                if self.cover(t, big) > 0:
                                    out.append(t)
                            except KeyError:
                                pass
                    if len(out) > 8:
                        return out
        return out

    def cover(self, t, rows):
        """number of cells an array template explains; 0 if it is wrong somewhere"""
        tot = 0
        for r, n, a in rows:
            w = self.rows[r]
            for lo, hi, co, node, s, c, first, other in t.pieces:
                cv, f = self.ivalue(c, r), None if first is None else self.ivalue(first, r)
                for j in range(max(self.ivalue(lo, r), 0), min(self.ivalue(hi, r), len(a))):
                    b = s * j + cv
                    if f is not None and b < f:
                        if other is None:
                            continue
                        y = other
                    else:
                        try:
                            y = self.nodeval(node, w, b)
                        except (seq.Undefined, IndexError, ZeroDivisionError):
                            return 0
                    if a[j] is None or isinstance(y, bool) or not close(float(y), a[j]):
                        return 0
                    tot += 1
        return tot

    def pieces(self, node, s, known, rows):
        segs = []
        for r, n, a in known:
            q = self.segments(a, node, s, self.rows[r])
            if q is None:
                continue
            # what is left must be unknown or zero
            segs.append((r, n, a, q))
        one = [(r, n, a, q) for r, n, a, q in segs if len(q) == 1]
        two = [(r, n, a, q) for r, n, a, q in segs if len(q) == 2]
        out = []
        small = max((n for r, n, a, q in segs), default=0) <= 6
        amb = lambda q: q[1] - q[0] < 2 and not small        # a single cell may match by chance
        if len(two) * 8 <= len(segs):
            # one piece
            for c in self.afit([(r, q[0][2]) for r, n, a, q in one if not amb(q[0])])[:4]:
                los = self.bounds(node, s, c, rows_=segs)
                if los:
                    out.append(ArrTemplate([(los[0], los[1], Fraction(1), node, s, c, None, None)]))
        if two:
            ps = self.afit([(r, q[1][0]) for r, n, a, q in two])
            for p in ps[:3]:
                def side(q, r):
                    return 0 if q[0] < self.ivalue(p, r) else 1
                left = [(r, g[2]) for r, n, a, q in segs for g in q if not amb(g) and g[1] <= self.ivalue(p, r)]
                right = [(r, g[2]) for r, n, a, q in segs for g in q if not amb(g) and g[0] >= self.ivalue(p, r)]
                if not left or not right:
                    continue
                fr = min(min(s * g[0] + g[2], s * (g[1] - 1) + g[2]) for r, n, a, q in two for g in q)
                cap = self.afit([(r, n) for r, n, a, q in segs], False)[:2]
                first = self.afit([(r, fr) for r, n, a, q in segs], False)[:1]
                fs = self.firsts(node, s, segs)
                zero = all(x == 0 for r, n, a, q in segs for j, x in enumerate(a) if not any(g[0] <= j < g[1] for g in q))
                for c1 in self.afit(left)[:2]:
                    for c2, hi in [(self.minus(c1, hi, s), hi) for hi in cap] + [(c2, hi) for c2 in self.afit(right)[:2] for hi in cap]:
                        if all(self.ivalue(c2, r) == x for r, x in right):
                            for f in fs:
                                out.append(ArrTemplate([(0, p, Fraction(1), node, s, c1, f, Fraction(0) if zero else None),
                                                        (p, hi, Fraction(1), node, s, c2, f, Fraction(0) if zero else None)]))
        return out[:12]

    def minus(self, a, b, k):
        d = dict(a[0])
        for v, q in b[0]:
            d[v] = d.get(v, 0) - k * q
        return [(v, q) for v, q in d.items() if q], a[1] - k * b[1]

    def firsts(self, node, s, segs):
        """the bar of the oldest value ever stored"""
        by = {}
        for r, n, a, q in segs:
            for g in q:
                b = min(s * g[0] + g[2], s * (g[1] - 1) + g[2])
                w = self.rows[r].run
                by[w] = min(by.get(w, (b, r)), (b, r))
        out = [min(b for b, r in by.values())] if by else []
        for e in self.afit([(r, b) for b, r in by.values()], False)[:2]:
            if e[0] or e[1] not in out:
                out.append(e)
        return out + [None]

    def ivalue(self, e, r):
        v = self.voc[0]
        return e if isinstance(e, int) else sum((k * self.rows[r].ints[v.index(q)] for q, k in e[0]), e[1])

    def bounds(self, node, s, c, rows_):
        """the largest range of cells that hold node(s*j + c) in every state seen"""
        lows, his = [], []
        for r, n, a, q in rows_:
            cv, w = self.ivalue(c, r), self.rows[r]
            ok = []
            for j, x in enumerate(a):
                if x is None:
                    continue
                try:
                    y = self.nodeval(node, w, s * j + cv)
                except (seq.Undefined, IndexError, ZeroDivisionError):
                    continue
                if not isinstance(y, bool) and close(x, y):
                    if ok and ok[-1] != j - 1:
                        break
                    ok.append(j)
            lows.append((r, ok[0] if ok else None))
            his.append((r, ok[-1] + 1 if ok else None, len(ok), n))
        lo = self.afit([(r, x) for r, x in lows if x is not None])[:1]
        if not lo:
            return None
        lo = lo[0]
        best = None
        hs = [(r, h, self.ivalue(lo, r)) for r, h, k, n in his]
        for iv in self.I:
            cs, t = self.idx[iv]
            if cs[:1] == ['max']:
                continue
            sc = 0
            for r, h, l in hs:
                x = iv[r]
                if x > (h if h is not None else l):
                    break
                sc += max(x - l, 0)
            else:
                if best is None or sc > best[0]:
                    best = (sc, (cs, t))
        return (lo, best[1]) if best else None

    def ends(self, out):
        """ends of the running sums the matched variables use"""
        e = []
        for c in out:
            for t in c[:1]:
                q = [p for p in t.parts or () if len(p) == 4 and isinstance(p[1], seq.Cum) and p[2][:1] != ['max']]
                if len(q) == 1:
                    e.append(((q[0][2], q[0][3]), None))
                elif len(q) == 2 and q[0][1] is q[1][1]:
                    e.append(((q[0][2], q[0][3]), (q[1][2], q[1][3])))
        self.E = e

    def ival(self, cs, c, w):
        v = self.voc[0]
        return sum((k * w.ints[v.index(q)] for q, k in cs), c)

    def linear(self, k):
        """linear combinations of window sums, with coefficients in the positions of the window"""
        import numpy as np
        vals = [w.vals[k] for w in self.rows]
        if any(v is None or v != v or math.isinf(v) for v in vals):
            return []
        val = np.array(vals)
        cums = [x for x in self.sy.nodes if isinstance(x, seq.Cum)]
        seen = set()
        mv = [(q, 1) for q in self.voc[0] if q in self.vs]
        tries = [(e, sa, sb) for e in self.E for sa, sb in ((0, 0), (0, 1), (0, -1), (1, 0), (-1, 0), (1, 1), (-1, -1))]
        tries += [(None, 0, 0)]
        self.fixed = []
        cols = {}
        for q in self.voc[0]:
            if q not in self.vs and q not in (('sym', 'nout'), ('sym', 'size'), ('p', 'size')):
                c = tuple(w.ints[self.voc[0].index(q)] for w in self.rows)
                if None in c or len(set(c)) < 3:
                    continue
                c = tuple(x - c[0] for x in c)
                if c not in cols:
                    cols[c] = 1
                    self.fixed.append(([(q, 1)], 0))
        self.fixed = self.fixed[:2]
        for e, sa, sb in tries:
            if str((e, sa, sb)) in seen:
                continue
            seen.add(str((e, sa, sb)))
            F = []           # (values, parts)
            try:
                if e is None:
                    ts = [([q], 0) for q in mv[:1]]
                else:
                    a, b = e
                    a = (a[0], a[1] + sa)
                    if b is None and sb:
                        continue
                    b = None if b is None else (b[0], b[1] + sb)
                    ts = [a] + ([b] if b is not None else self.fixed)
                    for x in cums:
                        ca = np.array([self.nodeval(x, w, self.ival(*a, w)) for w in self.rows])
                        ps = [(1, x, a[0], a[1])]
                        if b is not None:
                            ca = ca - np.array([self.nodeval(x, w, self.ival(*b, w)) for w in self.rows])
                            ps.append((-1, x, b[0], b[1]))
                        F.append((ca, [p + ([],) for p in ps]))
                        for t in ts:
                            tv = np.array([float(self.ival(*t, w)) for w in self.rows])
                            F.append((ca * tv, [p + ([t],) for p in ps]))
                one = np.ones(len(self.rows))
                F.append((one, [(1, None, [], 0, [])]))
                for t in ts:
                    tv = np.array([float(self.ival(*t, w)) for w in self.rows])
                    for d in ((1, 2, 3) if len(ts) == 1 else (1, 2)):
                        F.append((tv ** d, [(1, None, [], 0, [t] * d)]))
                if len(ts) == 2:
                    F.append((np.array([float(self.ival(*ts[0], w) * self.ival(*ts[1], w)) for w in self.rows]), [(1, None, [], 0, ts)]))
            except (seq.Undefined, IndexError, ZeroDivisionError):
                continue
            r = self.fit(F, val)
            if r is not None:
                return [Template([(co * c, *q) for co, ps in r for c, *q in ps])]
        return []

    @staticmethod
    def fit(F, val):
        """few features with simple rational coefficients that give the values"""
        import numpy as np
        A = np.array([f for f, _ in F]).T
        sc = np.maximum(abs(A).max(axis=0), 1e-12)
        act = list(range(len(F)))
        if len(val) < len(F) + 3:
            return None
        for _ in range(len(F)):
            x, *_r = np.linalg.lstsq(A[:, act] / sc[act], val, rcond=1e-13)
            if np.abs(A[:, act] / sc[act] @ x - val).max() > 1e-7 * max(1, abs(val).max()):
                return None
            co = x / sc[act]
            fr = [Fraction(float(c)).limit_denominator(12) for c in co]
            small = [k for k in range(len(act)) if abs(x[k]) < 1e-7 * max(1, abs(val).max())]
            if not small:
                break
            act = [a for k, a in enumerate(act) if k not in small]
            if not act:
                return None
        y = A[:, act] @ np.array([float(f) for f in fr])
        if np.abs(y - val).max() > 1e-7 * max(1, abs(val).max()):
            return None
        return [(f, F[a][1]) for f, a in zip(fr, act) if f]

    def sums(self, nodes, rs, vals, most=6):
        """differences of running sums"""
        import numpy as np
        out = []
        rs = list(rs)
        simple = set(self.I)
        val = np.array([vals[r] for r in rs])
        for x in nodes:
            if not isinstance(x, seq.Cum):
                continue
            M, J = [], []
            for iv in self.I + self.IM[:600]:
                y = []
                for r in rs:
                    try:
                        y.append(self.nodeval(x, self.rows[r], iv[r]))
                    except (seq.Undefined, IndexError, ZeroDivisionError):
                        break
                else:
                    M.append(y)
                    J.append(iv)
            if not M:
                continue
            M = np.array(M)
            tol = 1e-7 * np.maximum(1.0, np.maximum(abs(val), abs(M).max(axis=0)))
            plain = [j for j in range(len(J)) if J[j] in simple]
            for A, B in ((plain, plain), (plain, None), (None, None)):
                for sg in (1, -1):
                    for a in range(len(J)) if A is None else A:
                        d = np.abs(M[a][None, :] - M - sg * val[None, :])
                        okk = np.all(d <= tol[None, :], axis=1)
                        for b in np.nonzero(okk)[0] if B is None else [b for b in B if okk[b]]:
                            ca, cb = self.idx[J[a]], self.idx[J[b]]
                            out.append(Template([(sg, x, ca[0], ca[1]), (-sg, x, cb[0], cb[1])]))
                            if len(out) > most:
                                return out
                if out:
                    break
        return out


# ---- proof of one function --------------------------------------------------------------
LIMIT = 45      # seconds for the attempts on one function


def prove(lib, fname, sp, timeout=3000, seed=1, verbose=False, nruns=14, outmode=(), market=False, pin=None):
    """a proof for all inputs; if there is none, one for market data (positive prices, low <= open, close <= high, positive
    volume); if an output array is used as working storage, with that array's contents as loop invariants"""
    t0, c0 = time.time(), time.process_time()
    vs = finite(sp.name)
    if vs:
        best = prove_cases(lib, fname, sp, vs, timeout, seed)
        best.time = time.time() - t0
        return best
    r = attempt(lib, fname, sp, timeout, seed, nruns, tuple(outmode), market, pin)
    tried = {(tuple(outmode), market)}
    best = r
    while r.fails and not r.undecided:
        if time.process_time() - c0 > LIMIT:
            solve.STATS['slow'] += 1
            break
        kinds = {o.kind for o, m in r.fails}
        mode = (tuple(outmode), market)
        if kinds & {'output-value', 'output-domain', 'callee-domain'} and r.outread and not set(r.outread) <= set(outmode):
            mode = (tuple(sorted(set(outmode) | set(r.outread))), market)
        if mode in tried and not market and not r.unmatched:
            mode = (mode[0], True)
        if mode in tried:
            break
        tried.add(mode)
        outmode, market = mode
        r = attempt(lib, fname, sp, timeout, seed, nruns, outmode, market, pin)
        if not r.undecided and len(r.fails) <= len(best.fails):
            best = r
    best.time = time.time() - t0
    return best


def finite(name):
    """values of the period when the definition allows few"""
    f, kinds, kw = specs.SPECS[name]
    rg = kw.get('ranges', [])
    if not kinds or kinds[0] != 'i' or not rg or rg[0][1] is None or rg[0][1] - (rg[0][0] or 1) > 64:
        return None
    return [v for v in range(rg[0][0] or 1, rg[0][1] + 1) if not (kw.get('even') and v % 2)]


def prove_cases(lib, fname, sp, values, timeout, seed):
    """one proof for every value of the first option"""
    res = verify.Result(fname)
    res.kinds, res.vacuous, res.states, res.total, res.done, res.ninv, res.fails, res.ncases = {}, False, [], 0, 0, 0, [], 0
    res.market, res.outmode, res.unmatched = False, (), []
    for v in values:
        r = attempt(lib, fname, sp, timeout, seed, 6, (), False, {0: v})
        if r is None:
            continue
        res.undecided = r.undecided
        if r.undecided:
            break
        res.total, res.done, res.ninv, res.ncases = res.total + r.total, res.done + r.done, res.ninv + r.ninv, res.ncases + 1
        for k, n in r.kinds.items():
            res.kinds[k] = res.kinds.get(k, 0) + n
        res.ex, res.states, res.vacuous = r.ex, r.states, res.vacuous or r.vacuous
        res.unmatched += r.unmatched
        if r.fails:
            res.fails = r.fails
            break
    return res


def attempt(lib, fname, sp, timeout, seed, nruns, outmode, market, pin=None):
    t0 = time.time()
    res = verify.Result(fname)
    res.kinds, res.vacuous, res.states = {}, False, []
    res.market, res.outmode, res.outread, res.unmatched = market, outmode, (), []
    try:
        if sp.name not in specs.SPECS:
            raise Unsupported('no definition')
        mod, fn = lib.find(fname)
        sy = SymSpec(sp.name, sp.nin, pin)
        case = {k: (v, v, 'exact') for k, v in (pin or {}).items()}
        if sy.outs is None:
            return None
        mods = verify.load_callees(lib, mod, fn)
        # integer invariants, as in the safety proof
        mk0 = lambda plan, invs=None, ranks=None: verify._mk(lib, mods, mod, fn, sp, plan, invs, ranks, case, True)
        plan, ex = verify.plan_loop(mk0)
        invs = {}
        voc = {}
        if ex.cfg.headers:
            voc = verify.vocab_of(ex)
            tr = verify.batch_traces(lib, mod, fn, sp, ex, voc, nruns, seed=seed, case=case)
            for h in ex.cfg.headers:
                v, vary = voc[h]
                no = v.index(('sym', 'nout')) if ('sym', 'nout') in v else None
                rs = tr.rows[h]
                if no is not None:
                    rs = [q for q in rs if q[1][no] is None or q[1][no] > 0]
                cols, vv, rows = verify.clean_rows(v, vary, rs)
                invs[h] = infer.candidates(cols, [r for _, r in rows], vv, pairs=verify.loop_pairs(ex, h))
                invs[h] += infer.lemax(cols, list(dict.fromkeys(r for _, r in rows)), vv)
                if len(rows) < 3:
                    invs[h] = infer.untraced(v, vary)
            ex = mk0(plan, invs)
            ex.run()
            keep = set(map(id, solve.houdini(ex, timeout)))
            for h in invs:
                invs[h] = [i for i in invs[h] if id(i) in keep]
        # ghost values
        items = {h: fp_items(ex, h, invs, outmode) for h in ex.cfg.headers}
        cands = {}
        if ex.cfg.headers:
            rows, runs = trace(lib, mods, mod, fn, sp, ex, voc, items, sy, seed, pin=pin)
            for h in ex.cfg.headers:
                ext = any(isinstance(x, seq.Ext) for x in sy.nodes)
                if not items[h] and not ext:
                    continue
                fd = Finder(ex, h, voc[h], items[h], rows[h], runs, sy)
                cs = fd.all_candidates()
                for q, c in zip(items[h], cs):
                    cands[(h, q)] = c
                if ext and not any(isinstance(t, WinTemplate) and t.k for c in cs for t in c):
                    for q, c in fd.pointed().items():
                        cands[(h, q)] = c
        choice = {k: 0 for k in cands}
        res.unmatched = [k for k, c in cands.items() if not c]

        for rnd in range(int(os.environ.get("VRND", 6))):
            env = ValEnv(sp, mods, lib, pin)
            env.outmode = frozenset(outmode)
            env.outread = res.outread = set()
            env.market = market
            env.templates = {}
            env.vary = {h: {v[k] for k in vary} for h, (v, vary) in voc.items()}
            for (h, q), c in cands.items():
                if c and choice[(h, q)] < len(c):
                    env.templates.setdefault(h, {})[q] = retarget(c[choice[(h, q)]], sy, env.sym_)
            ex = ValExec(mod, fn, env, "real", "", plan, invs, mods=mods, allocfail=False)
            ex.ranks = {}
            ex.run()
            env.post(ex)
            res.total, res.done, res.fails, s = solve.discharge(ex, timeout, only=only)
            res.ex = ex
            bad = {o.tag for o, m in res.fails if o.kind in ('value-entry', 'value-preserved')}
            nxt = [k for k in bad if choice[k] + 1 < len(cands[k]) or k[1][0] == 'f' and choice[k] < len(cands[k])]
            if not bad and res.fails:
                # an array may be described better
                nxt = [k for k in choice if k[1][0] == 'a' and choice[k] + 1 < len(cands[k])][:1]
            if not nxt:
                break
            for k in nxt:
                choice[k] += 1
        res.states = [(h, q, str(cands[(h, q)][choice[(h, q)]]) if choice[(h, q)] < len(cands[(h, q)]) else None) for h, q in cands]
        res.ninv = sum(map(len, invs.values())) + len(cands)
        res.vacuous = verify.vacuous(ex, s, timeout)
        res.kinds = verify.kinds_of(ex, only)
    except (Unsupported, ir.IRError) as e:
        res.undecided = '%s: %s' % (type(e).__name__, e)
    res.time = time.time() - t0
    return res


def retarget(t, a, b):
    """the same template over another copy of the definition"""
    if a is b:
        return t
    if isinstance(t, WinTemplate):
        tr = lambda y: b.rep[a.num[id(y)]]
        x = tr(t.x) if id(t.x) in a.num else ext_of(tr(next(p for p in a.nodes if isinstance(p, seq.ExtAge) and ext_of(p) is t.x)))
        w = WinTemplate(x, t.a, t.b, t.k, t.late, t.idle, t.inf)
        w.place = None if t.place is None else tr(t.place)
        return w
    if isinstance(t, ArrTemplate):
        return ArrTemplate([(lo, hi, co, b.rep[a.num[id(n)]], s, c, f, o) for lo, hi, co, n, s, c, f, o in t.pieces])
    return Template([(co, b.rep[a.num[id(n)]] if n is not None else None, *q) for co, n, *q in t.parts], t.const, retarget(t.other, a, b) if isinstance(t.other, Template) else t.other)
