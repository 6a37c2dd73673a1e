"""Definitions of indicators as sequences over the bars.

A definition is written once (specs.py) and read two ways: concretely (exact
enough floating point, used as the oracle of the bounded search) and
symbolically (a term of the logic: recursively defined sequences become
uninterpreted functions with their defining equations).  Every operator looks
only at bars up to its own, so whatever equals such a sequence has no
look-ahead."""
import math
import z3
from terms import zr, zi, zb

NODES = []
NOISE = None         # (generator of +-1 or 0) models the rounding of an implementation in concrete evaluation


def exact(x, memo=None):
    """no rounding on grid prices: sums, differences, extrema of inputs and small products of these"""
    memo = {} if memo is None else memo
    if id(x) not in memo:
        memo[id(x)] = 99
        memo[id(x)] = deg(x, memo)
    return memo[id(x)] <= 2


def deg(x, memo):
    def d(y):
        if id(y) not in memo:
            memo[id(y)] = 99
            memo[id(y)] = deg(y, memo)
        return memo[id(y)]
    if isinstance(x, In):
        return 1
    if isinstance(x, Idx):
        return 0
    if isinstance(x, Const):
        return 0 if num(x.v) and float(x.v) * 8 == int(float(x.v) * 8) else 99
    if isinstance(x, Pt):
        a = [d(y) for y in x.args]
        if x.op in ('+', '-', 'neg', 'abs', 'max', 'min', '<', '<=', '==', '!=', 'and', 'or', 'not', 'round', 'floor', 'ceil', 'trunc'):
            return max(a)
        if x.op == '*':
            return a[0] + a[1]
        if x.op == '/' and isinstance(x.args[1], Const) and x.args[1].v in (1, 2, 3, 4):
            return a[0]
        return 99
    if isinstance(x, Where):
        return max(d(x.c), d(x.a), d(x.b))
    if isinstance(x, (Lag, Cum, Sum, Ext, From)):
        return d(x.x)
    return 99


class Undefined(Exception):
    pass


def num(v):
    return isinstance(v, (int, float))


def rv(v):
    """option value (python number or term) as a real-sorted term"""
    return v.rv() if hasattr(v, 'rv') else v if not z3.is_expr(v) else zr(v) if z3.is_real(v) else z3.ToReal(v)


def imax(*a):
    r = a[0]
    for x in a[1:]:
        if num(r) and num(x):
            r = max(r, x)
        else:
            r = z3.simplify(z3.If(zi(r) >= zi(x), zi(r), zi(x)))
    return r


def iif(c, a, b):
    """conditional on options"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, Seq) or isinstance(b, Seq):
        return where(Const(c), a, b)
    if num(a) and num(b) and isinstance(a, int) and isinstance(b, int):
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    return z3.If(c, zz_(a), zz_(b))


def zz_(a):
    return a if z3.is_expr(a) else z3.IntVal(a) if isinstance(a, int) else z3.RealVal(repr(a))


class Seq:
    name = None
    total = False

    def __init__(self):
        self.memo = {}
        NODES.append(self)

    # concrete value at a bar
    def at(self, i):
        if i not in self.memo:
            if i < self.start:
                raise Undefined('%s at %d < %d' % (type(self).__name__, i, self.start))
            self.memo[i] = self.calc(i)
        return self.memo[i]

    def clear(self):
        self.memo.clear()

    def __add__(a, b): return Pt('+', a, b)
    def __radd__(a, b): return Pt('+', b, a)
    def __sub__(a, b): return Pt('-', a, b)
    def __rsub__(a, b): return Pt('-', b, a)
    def __mul__(a, b): return Pt('*', a, b)
    def __rmul__(a, b): return Pt('*', b, a)
    def __truediv__(a, b): return Pt('/', a, b)
    def __rtruediv__(a, b): return Pt('/', b, a)
    def __neg__(a): return Pt('neg', a)
    def __abs__(a): return Pt('abs', a)
    def __lt__(a, b): return Pt('<', a, b)
    def __le__(a, b): return Pt('<=', a, b)
    def __gt__(a, b): return Pt('<', b, a)
    def __ge__(a, b): return Pt('<=', b, a)
    def eq(a, b): return Pt('==', a, b)
    def ne(a, b): return Pt('!=', a, b)
    def __and__(a, b): return Pt('and', a, b)
    def __or__(a, b): return Pt('or', a, b)
    def __invert__(a): return Pt('not', a)

    def lag(self, k=1):
        return self if num(k) and k == 0 else Lag(self, k)


def S(x):
    return x if isinstance(x, Seq) else Const(x)


class Const(Seq):
    start = 0

    def __init__(self, v):
        Seq.__init__(self)
        self.v = v

    def at(self, i):
        return self.v

    def kids(self):
        return ()


class In(Seq):
    start = 0

    def __init__(self, k, data=None):
        Seq.__init__(self)
        self.k, self.data = k, data

    def at(self, i):
        if i < 0:
            raise Undefined('input')
        return self.data[i]

    def kids(self):
        return ()


class Idx(Seq):
    """the bar number itself"""
    start = 0

    def at(self, i):
        return i

    def kids(self):
        return ()


class Lag(Seq):
    def __init__(self, x, k):
        Seq.__init__(self)
        self.x, self.k = x, k
        self.total = x.total            # defined before the first bar too
        self.start = 0 if x.total else x.start + k

    def at(self, i):
        return self.x.at(i - self.k)

    def kids(self):
        return (self.x,)


def cdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)


def cfun(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError):
            return math.nan
    return g


def cround(x):
    if x != x or math.isinf(x):
        return x
    return math.copysign(math.floor(abs(x) + 0.5), x)


CFUN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': cdiv, 'neg': lambda a: -a, 'abs': abs,
        '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
        'and': lambda a, b: a and b, 'or': lambda a, b: a or b, 'not': lambda a: not a,
        'max': lambda a, b: a if a > b else b, 'min': lambda a, b: a if a < b else b, 'round': cround,
        'floor': cfun(lambda x: float(math.floor(x))), 'ceil': cfun(lambda x: float(math.ceil(x))), 'trunc': cfun(lambda x: float(math.trunc(x))),
        'ln': cfun(lambda x: math.log(x) if x != 0 else -math.inf), 'log10': cfun(lambda x: math.log10(x) if x != 0 else -math.inf),
        'log2': cfun(lambda x: math.log2(x) if x != 0 else -math.inf), 'pow': cfun(lambda a, b: a ** b if not (a < 0 and b != int(b)) else math.nan), 'atan2': cfun(math.atan2)}
for f in 'acos asin atan cos cosh exp sin sinh sqrt tan tanh'.split():
    CFUN[f] = cfun(getattr(math, f))


class Pt(Seq):
    """pointwise"""
    def __init__(self, op, *args):
        Seq.__init__(self)
        self.op, self.args = op, [S(a) for a in args]
        self.start = imax(*[a.start for a in self.args])

    def calc(self, i):
        v = CFUN[self.op](*[a.at(i) for a in self.args])
        if NOISE is not None and not isinstance(v, bool) and not self.isexact():
            v *= 1 + 2e-14 * NOISE()
        return v

    ex = None

    def isexact(self):
        if self.ex is None:
            self.ex = exact(self)
        return self.ex

    def kids(self):
        return self.args


class Where(Seq):
    def __init__(self, c, a, b):
        Seq.__init__(self)
        self.c, self.a, self.b = S(c), S(a), S(b)
        self.start = imax(self.c.start, self.a.start, self.b.start)

    def calc(self, i):
        return self.a.at(i) if self.c.at(i) else self.b.at(i)

    def kids(self):
        return (self.c, self.a, self.b)


def where(c, a, b): return Where(c, a, b)
def fn(op):
    return lambda *a: Pt(op, *a) if any(isinstance(x, Seq) for x in a) else ofun(op, *a)


def ofun(op, *a):
    """a function of options only"""
    if all(num(x) for x in a):
        return CFUN[op](*[float(x) for x in a])
    return OSYM(op, *a)


OSYM = None          # symbolic counterpart, set by the proof engine


class Rec(Seq):
    """y(s) = init(s); y(i) = step(y)(i) for i > s, step using y.lag(1), y.lag(2)..;
    before: value at bars below s (None: undefined)"""
    def __init__(self, start, init, step, before=None, name=None):
        Seq.__init__(self)
        self.start = 0 if before is not None else start
        self.s = start
        self.before = before
        self.total = before is not None
        self.init = None if init is None else S(init)
        self.name = name
        self.prev = Prev(self)
        self.step = S(step(self.prev))

    def at(self, i):
        if i in self.memo:
            return self.memo[i]
        if i < self.s:
            if self.before is None:
                raise Undefined('rec')
            return self.before
        j = i
        while j > self.s and j - 1 not in self.memo:
            j -= 1
        for t in range(j, i + 1):
            self.memo[t] = self.init.at(t) if t == self.s and self.init is not None else self.step.at(t)
            if NOISE is not None and self.memo[t] is not True and self.memo[t] is not False:
                self.memo[t] *= 1 + 2e-14 * NOISE()
        return self.memo[i]

    def kids(self):
        return (self.step,) if self.init is None else (self.init, self.step)


class Prev(Seq):
    """the recursive sequence inside its own definition"""
    def __init__(self, r):
        Seq.__init__(self)
        self.r = r
        self.start = 0
        self.total = True               # (the recursion itself knows where it begins)

    def at(self, i):
        return self.r.at(i)

    def kids(self):
        return ()


class From(Seq):
    """x from bar s on, a constant before"""
    start = 0
    total = True

    def __init__(self, x, s, before=0.0):
        Seq.__init__(self)
        self.x, self.s, self.before = S(x), s, before

    def at(self, i):
        return self.x.at(i) if i >= self.s else self.before

    def kids(self):
        return (self.x,)


class Cum(Seq):
    """sum of x over bars x.start..i, 0 before"""
    start = 0
    total = True

    def __init__(self, x, frm=None):
        Seq.__init__(self)
        self.x = x
        self.s = x.start if frm is None else frm

    def at(self, i):
        if i < self.s:
            return 0.0
        if i not in self.memo:
            j = i
            while j > self.s and j - 1 not in self.memo:
                j -= 1
            for t in range(j, i + 1):
                self.memo[t] = (self.memo[t - 1] if t > self.s else 0.0) + self.x.at(t)
        return self.memo[i]

    def kids(self):
        return (self.x,)


class Sum(Seq):
    """sum of the last n values"""
    def __init__(self, x, n, frm=None):
        Seq.__init__(self)
        self.x, self.n = x, n
        self.cum = Cum(x, frm)
        self.start = self.cum.s + n - 1

    ex = None
    big = 0.0

    def calc(self, i):
        w = [self.x.at(j) for j in range(i - self.n + 1, i + 1)]
        if not all(map(math.isfinite, w)):
            return sum(w)
        v = math.fsum(w)
        if NOISE is not None:
            if self.ex is None:
                self.ex = exact(self.x)
            if not self.ex:
                # an implementation adds and removes values one by one: what left the window leaves its rounding
                self.big = max([self.big] + [abs(self.x.at(j)) for j in range(max(self.start - self.n + 1, 0), i + 1)])
                v += 4e-15 * self.n * self.big * NOISE()
        return v

    def kids(self):
        return (self.cum, self.x)


class WSum(Seq):
    """sum over ages j < n of f(j), f giving a sequence for an age"""
    def __init__(self, n, f, start=0):
        Seq.__init__(self)
        self.n, self.f = n, f
        self.J = None
        if num(n):
            self.terms = [S(f(j)) for j in range(n)]
            self.start = imax(start, *[t.start for t in self.terms]) if self.terms else start
        else:
            self.start = start

    def calc(self, i):
        return math.fsum(t.at(i) for t in self.terms)

    def kids(self):
        return ()


class Ext(Seq):
    """largest / smallest of the last n values"""
    def __init__(self, x, n, op):
        Seq.__init__(self)
        self.x, self.n, self.op = x, n, op
        self.start = x.start + n - 1

    def calc(self, i):
        return (max if self.op == 'max' else min)(self.x.at(j) for j in range(i - self.n + 1, i + 1))

    def kids(self):
        return (self.x,)


class ExtAge(Seq):
    """age of the most recent largest / smallest of the last n values"""
    def __init__(self, x, n, op):
        Seq.__init__(self)
        self.x, self.n, self.op = x, n, op
        self.start = x.start + n - 1

    def calc(self, i):
        best = 0
        for j in range(1, self.n):
            a, b = self.x.at(i - j), self.x.at(i - best)
            if a > b if self.op == 'max' else a < b:
                best = j
        return best

    def kids(self):
        return (self.x,)


class Fun(Seq):
    """anything else: f(i) computed from values up to i (concrete only)"""
    def __init__(self, start, f, deps=()):
        Seq.__init__(self)
        self.start, self.f = start, f

    def calc(self, i):
        return self.f(i)

    def kids(self):
        return ()


def Max(x, n): return Ext(x, n, 'max')
def Min(x, n): return Ext(x, n, 'min')
def max2(a, b): return Pt('max', a, b)
def min2(a, b): return Pt('min', a, b)


def Mean(x, n):
    return Sum(x, n) / n


def Ema(x, alpha, s=None):
    """y(s) = x(s); y(i) = y(i-1) + alpha (x(i) - y(i-1))"""
    s = x.start if s is None else s
    return Rec(s, x, lambda y: y.lag() + (x - y.lag()) * alpha)


def after(x, s):
    """x, considered from bar s on"""
    r = Lag(x, 0)
    r.start = s
    return r


def Rec0(s, step):
    """recursion with zeros before bar s"""
    return Rec(s, None, step, before=0.0)
