"""Definitions of the indicators (P07).  Each function receives the input
series and the options (whole-number ones as integers) and returns the output
sequences; the first bar of a sequence is part of the definition.  Sources:
the published definitions the registry cites, with the library's documented
conventions for the first value of a recursion and for zero denominators."""
import math
from seq import *

SPECS = {}


def spec(name, opts='', **kw):
    def d(f):
        SPECS[name] = (f, opts, kw)
        return f
    return d


fabs, sqrt, ln, exp = abs, fn('sqrt'), fn('ln'), fn('exp')
PI = math.pi


def nz(den, val, other=0):
    """val unless the denominator is zero"""
    return where(S(den).ne(0), val, other)


# ---- elementwise ------------------------------------------------------------------
for _n in 'acos asin atan ceil cos cosh exp floor ln log10 round sin sinh sqrt tan tanh trunc abs'.split():
    SPECS[_n] = (lambda x, n=_n: [fn(n)(x[0])], '', {})
for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: a / b).items():
    SPECS[_n] = (lambda x, f=_f: [f(x[0], x[1])], '', {})
SPECS['todeg'] = (lambda x: [x[0] * (180.0 / PI)], '', {})
SPECS['torad'] = (lambda x: [x[0] * (PI / 180.0)], '', {})


@spec('avgprice')
def _(x): return [(x[0] + x[1] + x[2] + x[3]) / 4]


@spec('medprice')
def _(x): return [(x[0] + x[1]) / 2]


@spec('typprice')
def _(x): return [(x[0] + x[1] + x[2]) / 3]


@spec('wcprice')
def _(x): return [(x[0] + x[1] + x[2] * 2) / 4]


@spec('crossany')
def _(x):
    a, b = x
    return [where(((a > b) & (a.lag() <= b.lag())) | ((a < b) & (a.lag() >= b.lag())), 1, 0)]


@spec('crossover')
def _(x):
    a, b = x
    return [where((a > b) & (a.lag() <= b.lag()), 1, 0)]


@spec('decay', 'i')
def _(x, p): return [Rec(0, x[0], lambda y: max2(x[0], y.lag() - 1.0 / rv(p)))]


@spec('edecay', 'i')
def _(x, p): return [Rec(0, x[0], lambda y: max2(x[0], y.lag() * (1.0 - 1.0 / rv(p))))]


@spec('lag', 'i')
def _(x, p): return [x[0].lag(p)]


@spec('mom', 'i')
def _(x, p): return [x[0] - x[0].lag(p)]


@spec('roc', 'i')
def _(x, p): return [roc(x[0], p)]


def roc(x, p): return nz(x.lag(p), (x - x.lag(p)) / x.lag(p))


@spec('rocr', 'i')
def _(x, p): return [nz(x[0].lag(p), x[0] / x[0].lag(p))]


@spec('ad')
def _(x):
    return [Cum(clv(*x[:3]) * x[3])]


def clv(h, l, c):
    return nz(h - l, ((c - l) - (h - c)) / (h - l))


@spec('bop')
def _(x):
    o, h, l, c = x
    return [where(h - l <= 0, 0, (c - o) / (h - l))]


@spec('emv')
def _(x):
    h, l, v = x
    m = (h + l) / 2
    d = m - m.lag()
    return [nz(d, d / (v / 10000.0 / (h - l)))]


@spec('marketfi')
def _(x): return [nz(x[2], (x[0] - x[1]) / x[2])]


@spec('nvi')
def _(x):
    c, v = x
    return [Rec(0, 1000, lambda y: where(v < v.lag(), y.lag() * (1 + (c - c.lag()) / c.lag()), y.lag()))]


@spec('pvi')
def _(x):
    c, v = x
    return [Rec(0, 1000, lambda y: where((v > v.lag()) & (v.lag() > 0), y.lag() * (1 + (c - c.lag()) / c.lag()), y.lag()))]


@spec('obv')
def _(x):
    c, v = x
    return [Cum(where(c > c.lag(), v, where(c < c.lag(), -v, 0)))]


@spec('wad')
def _(x):
    h, l, c = x
    y = c.lag()
    r = Cum(where(c > y, c - min2(y, l), where(c < y, c - max2(y, h), 0)))
    return [after(r, 1)]


def tr_from1(h, l, c):
    """true range from the second bar on"""
    return max2(h - l, max2(abs(h - c.lag()), abs(l - c.lag())))


def truerange(h, l, c):
    """true range; the first bar has no previous close"""
    return Rec(0, h - l, lambda y: tr_from1(h, l, c))


@spec('tr')
def _(x): return [truerange(*x)]


@spec('qstick', 'i')
def _(x, p): return [Sum(x[1] - x[0], p) / p]


@spec('dpo', 'i')
def _(x, p):
    b = idiv(p, 2) + 1
    return [x[0].lag(b) - Sum(x[0], p) / p]


def idiv(a, b):
    return a // b


@spec('wma', 'i')
def _(x, p): return [Wma(x[0], p)]


def Wma(x, p, frm=None):
    """weights 1 .. p, the newest bar has weight p"""
    k = Idx()
    # sum (j - (i - p)) x(j) over the window
    return (Sum(x * k, p, frm) - (k - p) * Sum(x, p, frm)) / (rv(p) * (rv(p) + 1) / 2)


@spec('vwma', 'ii'[:1])
def _(x, p):
    a, b = Sum(x[0] * x[1], p), Sum(x[1], p)
    return [nz(a, a / b)]


@spec('kama', 'i')
def _(x, p):
    c = x[0]
    vol = Sum(abs(c - c.lag()), p)
    er = nz(vol, abs(c - c.lag(p)) / vol, 1)
    sc = er * (2 / 3.0 - 2 / 31.0) + 2 / 31.0
    return [Rec(p - 1, c, lambda y: y.lag() + sc * sc * (c - y.lag()))]


def sd(x, n):
    """population standard deviation"""
    m = Mean(x, n)
    return sqrt(Sum(x * x, n) / n - m * m)


@spec('vidya', 'iir', tol=1e-4, ranges=[(2, None), (2, None)])
def _(x, s, l, a):
    c = x[0]
    ss, ls = sd(c, s), sd(c, l)
    q = where(ss.ne(0), ss / ls, 0)
    k = where(q.ne(q), 0, q) * a
    return [Rec(l - 2, c, lambda y: y.lag() + k * (c - y.lag()))]


def a2(p): return 2 / (rv(p) + 1)


@spec('ema', 'i')
def _(x, p): return [Ema(x[0], a2(p))]


@spec('dema', 'i')
def _(x, p):
    e = Ema(x[0], a2(p))
    e2 = Ema(e, a2(p), p - 1)
    return [after(2 * e - e2, (p - 1) * 2)]


@spec('tema', 'i')
def _(x, p):
    e = Ema(x[0], a2(p))
    e2 = Ema(e, a2(p), p - 1)
    e3 = Ema(e2, a2(p), (p - 1) * 2)
    return [after(3 * e - 3 * e2 + e3, (p - 1) * 3)]


@spec('trix', 'i')
def _(x, p):
    e = Ema(x[0], a2(p))
    e2 = Ema(e, a2(p), p - 1)
    e3 = Ema(e2, a2(p), (p - 1) * 2)
    return [after(nz(e3, (e3 - e3.lag()) / e3 * 100), (p - 1) * 3 + 1)]


@spec('zlema', 'i')
def _(x, p):
    c = x[0]
    lag = idiv(p - 1, 2)
    # the recursion starts one bar before the lagged price exists
    return [Rec(iif(lag > 0, lag - 1, 0), c, lambda y: y.lag() + (c + (c - c.lag(lag)) - y.lag()) * a2(p))]


def Wilders(x, p, frm=None):
    s = (x.start if frm is None else frm) + p - 1
    return Rec(s, Sum(x, p, frm) / p, lambda y: y.lag() + (x - y.lag()) / p)


@spec('wilders', 'i')
def _(x, p): return [Wilders(x[0], p)]


@spec('rmta', 'ir')
def _(x, p, beta):
    c = x[0]
    a = 1.0 - beta
    b = Rec(0, (1 - a) * c + c, lambda y: (1 - a) * y.lag() + c)
    r = Rec(0, (1 - a) * c + a * (c + b), lambda y: (1 - a) * y.lag() + a * (c + b - b.lag()))
    return [after(r, p - 1)]


# ---- windows ----------------------------------------------------------------------
@spec('sma', 'i')
def _(x, p): return [Sum(x[0], p) / p]


@spec('sum', 'i')
def _(x, p): return [Sum(x[0], p)]


def Var(x, p, scale=None):
    s, q = Sum(x, p), Sum(x * x, p)
    v = q / p - (s / p) * (s / p)
    v.nonneg = True         # Cauchy-Schwarz
    return v


@spec('var', 'i', cond='var')
def _(x, p): return [Var(x[0], p)]


def root(v):
    """square root; a variance that rounding made negative stays as it is"""
    return where(v > 0, sqrt(v), v)


@spec('stddev', 'i', cond='sd')
def _(x, p): return [root(Var(x[0], p))]


@spec('stderr', 'i', cond='sd')
def _(x, p): return [root(Var(x[0], p)) * (1.0 / ofun('sqrt', rv(p)))]


@spec('md', 'i')
def _(x, p):
    m = Sum(x[0], p) / p
    return [Dev(x[0], m, p) / p]


class Dev(WSum):
    """sum over the window of the distance to the average at its end"""
    def __init__(self, x, m, p):
        self.x, self.m = x, m
        WSum.__init__(self, p, lambda j: abs(m - x.lag(j)), m.start)


def line(x, p):
    """intercept (at abscissa 0) and slope of the least squares line over the window, abscissae 1..p"""
    k = Idx()
    y = Sum(x, p)
    xy = Sum(x * k, p) - (k - p) * y
    sx, sxx = rv(p) * (rv(p) + 1) / 2, rv(p) * (rv(p) + 1) * (2 * rv(p) + 1) / 6
    b = (p * xy - sx * y) / (p * sxx - sx * sx)
    a = (y - b * sx) / p
    return a, b


@spec('linreg', 'i', ranges=[(2, None)])
def _(x, p):
    a, b = line(x[0], p)
    return [a + b * p]


@spec('linregintercept', 'i', ranges=[(2, None)])
def _(x, p):
    a, b = line(x[0], p)
    return [a + b]


@spec('linregslope', 'i', ranges=[(2, None)], tol=1e-5)
def _(x, p): return [line(x[0], p)[1]]


@spec('tsf', 'i', ranges=[(2, None)])
def _(x, p):
    a, b = line(x[0], p)
    return [a + b * (p + 1)]


@spec('fosc', 'i', ranges=[(2, None)])
def _(x, p):
    a, b = line(x[0], p)
    d = x[0] - (a + b * (p + 1)).lag()
    return [where(d.ne(0), 100 * d / x[0], 0)]


@spec('bbands', 'ir', cond='sd')
def _(x, p, k):
    d = sqrt(Var(x[0], p))
    m = Sum(x[0], p) / p
    return [m - k * d, m, m + k * d]


@spec('cci', 'i', tol=1e-5)
def _(x, p):
    t = (x[0] + x[1] + x[2]) / 3
    m = Sum(t, p) / p
    d = Dev(t, m, p) / p * 0.015
    return [after(nz(d, (t - m) / d), (p - 1) * 2)]


@spec('max', 'i')
def _(x, p): return [Max(x[0], p)]


@spec('min', 'i')
def _(x, p): return [Min(x[0], p)]


@spec('aroon', 'i')
def _(x, p):
    h, l = x
    return [(p - ExtAge(l, p + 1, 'min')) * (100.0 / rv(p)), (p - ExtAge(h, p + 1, 'max')) * (100.0 / rv(p))]


@spec('aroonosc', 'i')
def _(x, p):
    h, l = x
    return [(ExtAge(l, p + 1, 'min') - ExtAge(h, p + 1, 'max')) * (100.0 / rv(p))]


@spec('stoch', 'iii')
def _(x, kp, ks, dp):
    h, l, c = x
    hi, lo = Max(h, kp), Min(l, kp)
    d = hi - lo
    k = Sum(where(d.eq(0), 0, 100 * ((c - lo) / d)), ks) / ks
    return [after(k, kp + ks + dp - 3), Sum(k, dp) / dp]


def ups(c): return where(c > c.lag(), c - c.lag(), 0)
def downs(c): return where(c < c.lag(), c.lag() - c, 0)


def Rsi(c, p):
    u, d = Wilders(ups(c), p), Wilders(downs(c), p)
    return nz(u, 100.0 * (u / (u + d)))


@spec('rsi', 'i')
def _(x, p): return [Rsi(x[0], p)]


@spec('stochrsi', 'i', tol=1e-5)
def _(x, p):
    r = Rsi(x[0], p)
    hi, lo = Max(r, p), Min(r, p)
    d = hi - lo
    return [where(d.eq(0), 0, (r - lo) / d)]


@spec('willr', 'i')
def _(x, p):
    h, l, c = x
    hi, lo = Max(h, p), Min(l, p)
    d = hi - lo
    return [where(d.eq(0), 0, -100 * ((hi - c) / d))]


@spec('ao')
def _(x):
    m = 0.5 * (x[0] + x[1])
    return [Sum(m, 5) * (1.0 / 5) - Sum(m, 34) * (1.0 / 34)]


@spec('apo', 'ii')
def _(x, s, l): return [after(Ema(x[0], a2(s)) - Ema(x[0], a2(l)), 1)]


@spec('ppo', 'ii')
def _(x, s, l):
    a, b = Ema(x[0], a2(s)), Ema(x[0], a2(l))
    return [after(where((a - b).ne(0), 100.0 * (a - b) / b, 0), 1)]


@spec('macd', 'iii')
def _(x, s, l, g):
    # the classical 12/26 pair uses the published rounded constants
    cl = (s == 12) & (l == 26) if not (num(s) and num(l)) else s == 12 and l == 26
    a, b = Ema(x[0], oif(cl, 0.15, a2(s))), Ema(x[0], oif(cl, 0.075, a2(l)))
    m = after(a - b, l - 1)
    sig = Ema(m, a2(g), l - 1)
    return [m, sig, m - sig]


def oif(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, zz_(a), zz_(b))


@spec('cmo', 'i')
def _(x, p):
    u, d = Sum(ups(x[0]), p), Sum(downs(x[0]), p)
    return [where((u + d).ne(0), 100 * (u - d) / (u + d), 0)]


@spec('vosc', 'ii', tol=1e-5)
def _(x, s, l):
    a, b = Sum(x[0], s) / s, Sum(x[0], l) / l
    return [where((a - b).ne(0), 100.0 * (a - b) / b, 0)]


@spec('mfi', 'i')
def _(x, p):
    h, l, c, v = x
    t = (h + l + c) / 3
    u = Sum(where(t > t.lag(), t * v, 0), p)
    d = Sum(where(t < t.lag(), t * v, 0), p)
    return [nz(u, u / (u + d) * 100.0)]


@spec('mass', 'i')
def _(x, p):
    d = x[0] - x[1]
    e = Ema(d, 0.2)
    e2 = Ema(e, 0.2, 8)
    return [Sum(nz(after(e, 16), e / e2), p)]


@spec('cvi', 'i')
def _(x, p):
    e = Ema(x[0] - x[1], a2(p))
    o = e.lag(p)
    return [after(where((e - o).ne(0), 100.0 * (e - o) / o, 0), 2 * p - 1)]


@spec('adosc', 'ii')
def _(x, s, l):
    a = Cum(clv(*x[:3]) * x[3])
    return [after(Ema(a, a2(s)) - Ema(a, a2(l)), l - 1)]


@spec('kvo', 'ii')
def _(x, s, l):
    h, lo, c, v = x
    hlc = h + lo + c
    dm = h - lo
    trend = Rec(0, -1, lambda t: where(hlc > hlc.lag(), 1, where(hlc < hlc.lag(), 0, t.lag())))
    cm = Rec(0, 0, lambda y: where(trend.eq(trend.lag()), y.lag(), dm.lag()) + dm)
    vf = nz(dm, v * abs(dm / cm * 2 - 1) * 100 * where(trend.ne(0), 1, -1))
    vf = after(vf, 1)
    return [Ema(vf, a2(s)) - Ema(vf, a2(l))]


# ---- directional movement ---------------------------------------------------------
def dirmove(h, l):
    """the larger of the upward and downward moves, when positive; a tie counts for both"""
    up, dn = h - h.lag(), l.lag() - l
    return (where((up >= 0) & ((up >= dn)), up, 0), where((dn >= 0) & (dn >= up), dn, 0))


def wild0(x, p):
    """Wilder's sum: plain for the first p - 1 values, then decayed"""
    return Rec(1, x, lambda y: where(Idx() < p, y.lag(), y.lag() * ((rv(p) - 1) / rv(p))) + x, before=0.0)


def Dx(h, l, p):
    u, d = dirmove(h, l)
    up, dn = wild0(u, p), wild0(d, p)
    s = up + dn
    return after(nz(s, abs(up - dn) / s * 100), p - 1)


def Adx(h, l, p):
    d = Dx(h, l, p)
    return Rec(2 * (p - 1), Sum(d, p), lambda y: y.lag() * ((rv(p) - 1) / rv(p)) + d) / p


@spec('dm', 'i')
def _(x, p):
    u, d = dirmove(*x)
    return [after(wild0(u, p), p - 1), after(wild0(d, p), p - 1)]


@spec('di', 'i')
def _(x, p):
    h, l, c = x
    u, d = dirmove(h, l)
    a = wild0(tr_from1(h, l, c), p)
    up, dn = wild0(u, p), wild0(d, p)
    return [after(nz(up, 100.0 * up / a), p - 1), after(nz(dn, 100.0 * dn / a), p - 1)]


@spec('dx', 'i')
def _(x, p): return [Dx(x[0], x[1], p)]


@spec('adx', 'i')
def _(x, p): return [Adx(x[0], x[1], p)]


@spec('adxr', 'i')
def _(x, p):
    a = Adx(x[0], x[1], p)
    return [0.5 * (a + a.lag(p - 1))]


def Atr(h, l, c, p):
    return Wilders(truerange(h, l, c), p)


@spec('atr', 'i')
def _(x, p): return [Atr(*x, p)]


@spec('natr', 'i')
def _(x, p):
    a = Atr(*x, p)
    return [where(a.ne(0), 100 * a / x[2], 0)]


@spec('volatility', 'i', cond='sd')
def _(x, p):
    c = nz(x[0].lag(), x[0] / x[0].lag() - 1.0)
    return [sqrt(Var(c, p)) * math.sqrt(252)]


@spec('ultosc', 'iii', tol=1e-5)
def _(x, a, b, c):
    h, l, cl = x
    tl, th = min2(l, cl.lag()), max2(h, cl.lag())
    bp, r = cl - tl, th - tl
    def part(w, p):
        u, v = Sum(bp, p), Sum(r, p)
        return where(u.ne(0), w * u / v, 0)
    return [(part(4, a) + part(2, b) + part(1, c)) * 100.0 / 7.0]


@spec('psar', 'rr')
def _(x, step, mx):
    h, l = x
    # state (long, sar, extreme, accel) packed as four sequences over a common state
    return [Psar(h, l, step, mx)]


class Psar(Seq):
    """parabolic stop and reverse (Wilder)"""
    start = 1

    def __init__(self, h, l, step, mx):
        Seq.__init__(self)
        self.h, self.l, self.step, self.mx = h, l, step, mx
        self.st = {}

    def clear(self):
        self.memo.clear()
        self.st = {}

    def state(self, i):
        if i in self.st:
            return self.st[i]
        h, l = self.h.at, self.l.at
        if i == 0:
            lng = h(0) + l(0) <= h(1) + l(1)
            s = (lng, l(0) if lng else h(0), h(0) if lng else l(0), self.step)
        else:
            for j in range(i):
                self.state(j)
            lng, sar, ext, acc = self.st[i - 1]
            sar = (ext - sar) * acc + sar
            if lng:
                sar = min([sar] + [l(j) for j in (i - 1, i - 2) if j >= 0])
                if acc < self.mx and h(i) > ext:
                    acc = min(acc + self.step, self.mx)
                ext = max(ext, h(i))
            else:
                sar = max([sar] + [h(j) for j in (i - 1, i - 2) if j >= 0])
                if acc < self.mx and l(i) < ext:
                    acc = min(acc + self.step, self.mx)
                ext = min(ext, l(i))
            if l(i) < sar if lng else h(i) > sar:
                lng, sar, acc = not lng, ext, self.step
                ext = h(i) if lng else l(i)
            s = (lng, sar, ext, acc)
        self.st[i] = s
        return s

    def calc(self, i):
        return self.state(i)[1]

    def kids(self):
        return ()


@spec('fisher', 'i')
def _(x, p):
    m = 0.5 * (x[0] + x[1])
    hi, lo = Max(m, p), Min(m, p)
    d = hi - lo
    d = where(d.eq(0), 0.001, d)
    e = 0.33 * 2.0 * ((m - lo) / d - 0.5)
    def clip(v):
        v = where(v > 0.99, 0.999, v)
        return where(v < -0.99, -0.999, v)
    v = Rec(p - 1, clip(e), lambda y: clip(e + 0.67 * y.lag()))
    f = Rec(p - 1, 0.5 * ln((1.0 + v) / (1.0 - v)), lambda y: 0.5 * ln((1.0 + v) / (1.0 - v)) + 0.5 * y.lag())
    return [f, From(f.lag(), p, 0.0) if 0 else after(Rec(p - 1, 0, lambda y: f.lag()), p - 1)]


@spec('vhf', 'i')
def _(x, p):
    c = x[0]
    d = abs(Max(c, p) - Min(c, p))
    return [where(d.ne(0), d / Sum(abs(c - c.lag()), p), 0)]


@spec('msw', 'i', tol=1e-4, cond='msw')
def _(x, p):
    c = x[0]
    pi = 3.1415926
    tpi = 2 * pi
    rp = WSum(p, lambda j: ofun('cos', tpi * j / rv(p)) * c.lag(j))
    ip = WSum(p, lambda j: ofun('sin', tpi * j / rv(p)) * c.lag(j))
    ph = where(abs(rp) > 0.001, fn('atan')(ip / rp), tpi / 2.0 * where(ip < 0, -1.0, 1.0))
    ph = where(rp < 0, ph + pi, ph) + pi / 2
    ph = where(ph < 0, ph + tpi, ph)
    ph = where(ph > tpi, ph - tpi, ph)
    return [after(fn('sin')(ph), p), after(fn('sin')(ph + pi / 4), p)]


@spec('swma', 'i', ranges=[(1, 40)])
def _(x, p):
    w = lambda j: math.sin((j % 12 + 1) * PI / 6)
    if num(p) and (p % 6 == 0 or (p + 1) % 6 == 0):
        raise Undefined('rejected')
    return [WSum(p, lambda j: w(j) * x[0].lag(j)) / ssum(p, w)]


def ssum(p, w):
    """sum of w(j) for j < p"""
    return math.fsum(w(j) for j in range(p))


@spec('hma', 'i')
def _(x, p):
    p2 = iif(p > 1, idiv(p, 2), 1)
    d = 2 * Wma(x[0], p2) - Wma(x[0], p)
    return [Wma(d, isqrt(p))]


def isqrt(p):
    return math.isqrt(p) if num(p) else zi_sqrt(p)


def zi_sqrt(p):
    return z3.ToInt(zz_(OSYM('sqrt', rv(p))))


@spec('abands', 'i')
def _(x, p):
    h, l, c = x
    m = where(h + l > 0, 4.0 * (h - l) / (h + l), 0)
    return [Sum((1.0 - m) * l, p) / p, Sum((1.0 + m) * h, p) / p, Sum(c, p) / p]


# ---- newer indicators -------------------------------------------------------------
@spec('ahma', 'i')
def _(x, p):
    s = x[0]
    return [Rec(0, s, lambda y: where(Idx() < p, s, y.lag() + (s - (y.lag() + y.lag(p)) / 2) / p))]


def hilbert(v):
    return .0962 * v + .5769 * v.lag(2) - .5769 * v.lag(4) - .0962 * v.lag(6)


def homodyne(s, s0, turn, out):
    """Ehlers' homodyne discriminator; s0: first bar; turn: a full turn in the unit of the arc tangent"""
    def per(P):
        g = .075 * P.lag() + .54
        return g
    box = {}

    def step(P):
        g = .075 * P.lag() + .54
        sm = From((4 * s + 3 * s.lag() + 2 * s.lag(2) + s.lag(3)) / 10.0, s0)
        de = From(hilbert(Z(sm)) * g, s0)
        q1 = From(hilbert(Z(de)) * g, s0)
        i1 = From(Z(de).lag(3), s0)
        jI, jQ = hilbert(Z(i1)) * g, hilbert(Z(q1)) * g
        i2 = Rec0(s0, lambda y: .2 * (i1 - jQ) + .8 * y.lag())
        q2 = Rec0(s0, lambda y: .2 * (q1 + jI) + .8 * y.lag())
        re = Rec0(s0, lambda y: .2 * (i2 * i2.lag() + q2 * q2.lag()) + .8 * y.lag())
        im = Rec0(s0, lambda y: .2 * (i2 * q2.lag() - q2 * i2.lag()) + .8 * y.lag())
        # the slot of the new value still holds its predecessor but one when nothing is assigned
        raw = where(im.ne(0) & re.ne(0), turn / fn('atan')(im / re), P.lag(2))
        a = where(raw > 1.5 * P.lag(), 1.5 * P.lag(), raw)
        a = where(a < .67 * P.lag(), .67 * P.lag(), a)
        a = where(a < 6, 6, a)
        a = where(a > 50, 50, a)
        box.update(i1=i1, q1=q1)
        return .2 * a + .8 * P.lag()
    P = Rec0(s0, step)
    return P, box


def Z(x):
    """zero before its first bar"""
    return x


@spec('hd', tol=1e-4)
def _(x):
    P, _b = homodyne(x[0], 5, 2 * PI, None)
    return [after(Rec0(5, lambda y: .33 * P + .67 * y.lag()), 5)]


@spec('arsi', 'r', tol=1e-4)
def _(x, part):
    s = x[0]
    P, _b = homodyne(s, 5, 2 * PI, None)
    sp = Rec0(5, lambda y: .33 * P + .67 * y.lag())
    return [Arsi(s, sp, part)]


class Arsi(Seq):
    start = 5

    def __init__(self, s, sp, part):
        Seq.__init__(self)
        self.s, self.sp, self.part = s, sp, part

    def calc(self, i):
        x, n, up, dn = self.s.at, 0, 0.0, 0.0
        while n + 1 <= self.part * self.sp.at(i) and n < i:
            d = x(i - n) - x(i - n - 1)
            up, dn = up + max(0, d), dn + max(0, -d)
            n += 1
        return 100 * up / (up + dn) if up + dn else 0.0

    def kids(self):
        return (self.sp,)


import fractions, json as _json, os as _os
COEF = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'coefs.json')))


EXACT = False       # numbers of a definition as rationals, for proofs


def tab(v, p):
    """table entry for period p (2, 4, .. )"""
    if num(p):
        if p % 2 or p < 2 or p > 40:
            raise Undefined('rejected')
        return fractions.Fraction(str(v[p // 2 - 1])) if EXACT else v[p // 2 - 1]
    r = z3.RealVal(repr(v[-1]))
    for k in range(len(v) - 2, -1, -1):
        r = z3.If(zi(p) == 2 * (k + 1), z3.RealVal(repr(v[k])), r)
    return r


def iir(name, gauss):
    def f(x, p):
        c = {k: tab(v, p) for k, v in COEF[name].items()}
        s = x[0]
        A = [c['A%d' % k] for k in range(1, 5) if 'A%d' % k in c]
        B = [c['B%d' % k] for k in range(0, 5) if 'B%d' % k in c]
        if gauss:
            tot = B[0] + sum(A)
            step = lambda y: sum((a * y.lag(k + 1) for k, a in enumerate(A)), B[0] * s) / tot
            if name == 'gf4':
                return [Rec(0, s, lambda y: where(Idx() < 5, s, step(y)))]
            return [Rec0(0, step)]
        z = From(s, 0)
        y = Rec0(0, lambda y: sum((a * y.lag(k + 1) for k, a in enumerate(A)), sum((b * z.lag(k) for k, b in enumerate(B[1:], 1)), B[0] * s)))
        k = len(A)
        st = math.ceil(k * p / (3.1415 * 3.1415)) if num(p) else z3.If(z3.ToReal(z3.ToInt(rv(p) * k / z3.RealVal('9.86902225'))) == rv(p) * k / z3.RealVal('9.86902225'), 0, 1) + z3.ToInt(rv(p) * k / z3.RealVal('9.86902225'))
        return [after(y, st)]
    return f


for _n, _g in dict(bf2=0, bf3=0, gf1=1, gf2=1, gf3=1, gf4=1).items():
    SPECS[_n] = (iir(_n, _g), 'i', dict(ranges=[(2, 40)], even=True))


@spec('ce', 'ir')
def _(x, p, k):
    h, l, c = x
    t = truerange(h, l, c)
    a = Atr(h, l, c, p)
    return [Max(h, p) - k * a, Min(l, p) + k * a]


@spec('cmf', 'i')
def _(x, p):
    h, l, c, v = x
    m = nz(h - l, v * ((c - l) - (h - c)) / (h - l))
    s, q = Sum(m, p), Sum(v, p)
    return [nz(q, s / q)]


@spec('cmi', 'i', ranges=[(2, None)], tol=1e-5, cond='log')
def _(x, p):
    t = truerange(*x)
    return [ln((Max(t, p) - Min(t, p)) / Sum(t, p)) / ofun('ln', rv(p)) * 100]


@spec('copp', 'iii', tol=1e-5)
def _(x, s, l, w):
    c = x[0]
    a, b = c.lag(s), c.lag(l)
    r = where(a.ne(0) & b.ne(0), ((c / a - 1) + (c / b - 1)) / 2.0 * 100.0, 0)
    return [Wma(r, w)]


@spec('dwma', 'i')
def _(x, p): return [Wma(Wma(x[0], p), p)]


@spec('edcf', 'i')
def _(x, n):
    c = x[0]
    def dist(j):
        return sum(((c.lag(j) - c.lag(j + b)) * (c.lag(j) - c.lag(j + b)) for b in range(1, n)), Const(0.0))
    num_ = WSum(n, lambda j: dist(j) * c.lag(j))
    den = WSum(n, dist)
    return [after(nz(den, num_ / den, c), 2 * n - 1)]


@spec('ehma', 'i')
def _(x, p):
    d = 2 * Ema(x[0], 2.0 / (rv(p) / 2.0 + 1.0)) - Ema(x[0], a2(p))
    return [Ema(d, 2.0 / (ofun('sqrt', rv(p)) + 1.0))]


@spec('emsd', 'ii', cond='sd')
def _(x, p, m): return [sqrt(Ema(Var(x[0], p), a2(m)))]


@spec('er', 'i')
def _(x, p):
    c = x[0]
    n = abs(c - c.lag(p))
    return [nz(n, n / Sum(abs(c - c.lag()), p))]


@spec('evwma', 'ir')
def _(x, p, g):
    c, v = x
    n = Sum(v, p)
    return [Rec(p - 1, c, lambda y: nz(n, y.lag() * (1 - v / (g * n)) + v / (g * n) * c))]


@spec('fi', 'i')
def _(x, p):
    c, v = x
    return [Ema(v * (c - c.lag()), a2(p))]


@spec('frama', 'ii', tol=1e-5, cond='frama')
def _(x, p, q):
    h, l = x
    m = (h + l) / 2
    hp = idiv(p, 2)
    if num(p) and p % 2:
        raise Undefined('rejected')
    n3 = (Max(h, p) - Min(l, p)) / p
    n1 = (Max(h, hp) - Min(l, hp)) / hp
    n2 = (Max(h, hp) - Min(l, hp)).lag(hp) / hp
    d = where((n1 > 0) & (n2 > 0) & (n3 > 0), (ln(n1 + n2) - ln(n3)) / math.log(2), 0)
    a = exp(ofun('ln', 2.0 / (1.0 + rv(q))) * (d - 1))
    a = where(a < 0.01, 0.01, a)
    a = where(a > 1, 1, a)
    return [Rec(0, m, lambda y: where(Idx() < p, m, a * m + (1 - a) * y.lag()))]


def hampel(c, cand, k, thr, strict):
    import statistics
    def f(i):
        w = [c.at(j) for j in range(i - 2 * k, i + 1)]
        m = statistics.median(w)
        d = statistics.median([abs(a - m) for a in w])
        v = cand.at(i)
        b = abs(v - m)
        lim = thr * 1.4826 * d
        return v if (b < lim if strict else b <= lim) else m
    return Fun(c.start + 2 * k, f, (c, cand))


@spec('hf', 'ir', cond='tie')
def _(x, k, t): return [hampel(x[0], x[0], k, t, True)]


@spec('hfema', 'iir', cond='tie')
def _(x, p, k, t):
    e = Ema(x[0], a2(p))
    return [hampel(e, e.lag(k), k, t, False)]


@spec('hfsma', 'iir', cond='tie')
def _(x, p, k, t):
    e = Sum(x[0], p) / p
    return [hampel(e, e.lag(k), k, t, False)]


@spec('hurst', 'i', ranges=[(2, None)], cond='hurst')
def _(x, p):
    c = x[0]
    r = where(c.ne(0) & c.lag().ne(0), ln(c / c.lag()), 0)
    m = Sum(r, p) / p
    def f(i):
        w = [r.at(i - j) - m.at(i) for j in range(p)]
        acc, hi, lo = 0.0, -math.inf, math.inf
        for a in w:
            acc += a
            hi, lo = max(hi, acc), min(lo, acc)
        s = math.sqrt(math.fsum(a * a for a in w) / p)
        R = hi - lo
        return math.log(R / s) / math.log(p) if R and s else 0.0
    H = Fun(p, f, (r, m))
    return [H, 2 - H]


@spec('hwma', 'i', ranges=[(7, 13)])
def _(x, p):
    if not 7 <= p <= 13:
        raise Undefined('rejected')
    w = COEF['hwma'][p - 7]
    return [WSum(p, lambda j: w[12 - j] * x[0].lag(j))]


@spec('ichi', 'iii')
def _(x, a, b, c):
    h, l = x
    mid = lambda n: (Max(h, n) + Min(l, n)) / 2
    st = imax(a - 1, b - 1, c - 1 + b, a - 1 + b)
    A, B = (mid(a) + mid(b)) / 2, mid(c)
    return [after(v, st) for v in (mid(a), mid(b), A.lag(b), B.lag(b))]


@spec('idwma', 'ir')
def _(x, p, e):
    w = lambda j: (j + 1.0) ** -e
    return [WSum(p, lambda j: w(j) * x[0].lag(j)) / ssum(p, w)]


@spec('kc', 'ir')
def _(x, p, m):
    h, l, c = x
    e, t = Ema(c, a2(p)), Ema(truerange(h, l, c), a2(p))
    return [e - m * t, e, e + m * t]


@spec('kst', 'iiiiiiii', tol=1e-5)
def _(x, r1, r2, r3, r4, m1, m2, m3, m4):
    c = x[0]
    e = [Ema(roc(c, r), a2(m)) for r, m in zip((r1, r2, r3, r4), (m1, m2, m3, m4))]
    v = (e[0] * 1.0 + e[1] * 2.0 + e[2] * 3.0 + e[3] * 4.0) / 10.0
    return [v, Ema(v, 0.2)]


@spec('lf', 'r')
def _(x, g):
    l0 = Rec0(0, lambda y: (1.0 - g) * x[0] + g * y.lag())
    def nxt(p): return Rec0(0, lambda y: -g * p + p0(p) + g * y.lag())
    def p0(p): return p.lag()
    l1 = nxt(l0)
    l2 = nxt(l1)
    l3 = nxt(l2)
    return [(l0 + 2.0 * l1 + 2.0 * l2 + l3) / 6.0]


@spec('lma', 'i')
def _(x, p): return [2 * Wma(x[0], p) - Sum(x[0], p) / p]


@spec('mama', 'rr', tol=1e-3)
def _(x, fast, slow):
    s = x[0]
    P, b = homodyne(s, 6, 2 * PI, None)
    i1, q1 = b['i1'], b['q1']
    ph = From(where(i1.ne(0), fn('atan')(q1 / i1) * (180.0 / PI), 0), 6)
    a = max2(slow, fast / max2(1.0, ph.lag() - ph))
    m = Rec0(6, lambda y: a * s + (1.0 - a) * y.lag())
    f = Rec0(6, lambda y: .5 * a * m + (1.0 - .5 * a) * y.lag())
    return [after(m, 6), after(f, 6)]


@spec('mesastoch', 'ii', tol=1e-4, cond='mesa')
def _(x, p, mc):
    s = x[0]
    pi = 3.141592
    rad = lambda d: d * pi / 180
    cs, sn = math.cos(rad(.707 * 360 / mc)), math.sin(rad(.707 * 360 / mc))
    al = (cs + sn - 1) / cs
    a1 = math.exp(-1.414 * 3.141459 / 10.0)
    c2 = 2 * a1 * math.cos(rad(1.414 * 180.0 / 10.0))
    c3 = -a1 * a1
    c1 = 1 - c2 - c3
    hp = Rec0(2, lambda y: (1 - al / 2) * (1 - al / 2) * (s - 2 * s.lag() + s.lag(2)) + 2 * (1 - al) * y.lag() - (1 - al) * (1 - al) * y.lag(2))
    fl = Rec0(2, lambda y: c1 * (hp + hp.lag()) / 2 + c2 * y.lag() + c3 * y.lag(2))
    f2 = after(fl, 2)
    hi, lo = Max(f2, p), Min(f2, p)
    st = From(nz(fl - lo, (fl - lo) / (hi - lo)), p + 2)
    return [after(Rec0(p + 2, lambda y: c1 * (st + st.lag()) / 2 + c2 * y.lag() + c3 * y.lag(2)), p + 2)]


@spec('mgdyn', 'r', tol=1e-5)
def _(x, n):
    c = x[0]
    return [Rec(0, c, lambda y: y.lag() + (c - y.lag()) / (n * fn('pow')(c / y.lag(), 4)))]


@spec('mhlma', 'ii')
def _(x, p, m):
    c = x[0]
    n = Idx() + 1
    mid = (HeadExt(c, p, 'max') + HeadExt(c, p, 'min')) / 2
    return [Sum(mid, m) / m, after(Ema(mid, a2(m)), m - 1)]


class HeadExt(Ext):
    """extremum of the last n values, of all values before n are there"""
    def __init__(self, x, n, op):
        Ext.__init__(self, x, n, op)
        self.start = 0

    def calc(self, i):
        return (max if self.op == 'max' else min)(self.x.at(j) for j in range(max(0, i - self.n + 1), i + 1))


@spec('pbands', 'i', ranges=[(2, None)])
def _(x, p):
    h, l, c = x
    a, b = line(c, p)
    up = WMax(p, lambda j: h.lag(j) + b * j, 'max')
    lo = WMax(p, lambda j: l.lag(j) + b * j, 'min')
    return [lo, up]


class WMax(WSum):
    def __init__(self, n, f, op):
        self.op = op
        WSum.__init__(self, n, f)

    def calc(self, i):
        return (max if self.op == 'max' else min)(t.at(i) for t in self.terms)


@spec('pc', 'i')
def _(x, p): return [Min(x[1], p), Max(x[0], p)]


@spec('pfe', 'ii')
def _(x, p, e):
    c = x[0]
    d = c - c.lag(p)
    s = Sum(sqrt((c - c.lag()) * (c - c.lag()) + 1.0), p)
    r = where(d > 0, 1.0, -1.0) * 100.0 * sqrt(d * d + 100.0) / s
    return [Ema(r, a2(e))]


@spec('posc', 'ii', ranges=[(2, None), (1, None)], tol=1e-5)
def _(x, p, e):
    h, l, c = x
    a, b = line(c, p)
    up = WMax(p, lambda j: h.lag(j) + b * j, 'max')
    lo = WMax(p, lambda j: l.lag(j) + b * j, 'min')
    o = nz(c - lo, (c - lo) / (up - lo) * 100.0)
    return [Ema(o, a2(e))]


@spec('pvt')
def _(x):
    c, v = x
    d = v * (c - c.lag()) / c.lag()
    return [Rec(1, d + v.lag(), lambda y: y.lag() + d)]


@spec('pwma', 'ir')
def _(x, p, e):
    w = lambda j: float(p - j) ** e
    return [WSum(p, lambda j: w(j) * x[0].lag(j)) / ssum(p, w)]


@spec('rema', 'ir')
def _(x, p, lam):
    c = x[0]
    a = a2(p)
    return [Rec(0, c, lambda y: where(Idx() < 2, y.lag() + (c - y.lag()) * a,
                                      (y.lag() * (1.0 + 2.0 * lam) + a * (c - y.lag()) - lam * y.lag(2)) / (1.0 + lam)))]


@spec('rmf', 'ii', ranges=[(2, None), (1, 99)], cond='rmf')
def _(x, cp, mp):
    import statistics
    c = x[0]
    if mp % 2 != 1:
        raise Undefined('rejected')
    w = 2 * PI / cp
    al = (math.cos(w) + math.sin(w) - 1) / math.cos(w)
    med = Fun(mp - 1, lambda i: statistics.median([c.at(j) for j in range(i - mp + 1, i + 1)]), (c,))
    return [Rec(mp - 1, med, lambda y: al * med + (1 - al) * y.lag())]


@spec('rmi', 'ii')
def _(x, p, lb):
    d = x[0] - x[0].lag(lb)
    g, l = Ema(max2(0, d), a2(p)), Ema(max2(0, -d), a2(p))
    return [nz(g, g / (g + l) * 100.0)]


@spec('roof')
def _(x):
    s = From(x[0], 0)
    w = .707 * 2 * 3.14159 / 48
    al = (math.cos(w) + math.sin(w) - 1) / math.cos(w)
    hp = Rec0(0, lambda y: (1 - al / 2) * (1 - al / 2) * (s - 2 * s.lag() + s.lag(2)) + 2 * (1 - al) * y.lag() - (1 - al) * (1 - al) * y.lag(2))
    return [ssm(hp)]


def ssm(x):
    """Ehlers' super smoother over 10 bars"""
    a1 = math.exp(-1.414 * 3.14159 / 10)
    c2 = 2 * a1 * math.cos(1.414 * 3.14159 / 10)
    c3 = -a1 * a1
    c1 = 1 - c2 - c3
    return Rec0(0, lambda y: c1 * (x + x.lag()) / 2 + c2 * y.lag() + c3 * y.lag(2))


@spec('ssmooth')
def _(x): return [ssm(From(x[0], 0))]


@spec('rvi', 'ii', ranges=[(1, None), (3, None)], tol=1e-4, cond='rvi')
def _(x, e, n):
    c = x[0]
    a, b = line(c, n)
    d = c - (a + b * n)
    v = d * d / n
    g = Rec(n - 1, where(d > 0, v * a2(e), 0), lambda y: where(d > 0, (v - y.lag()) * a2(e) + y.lag(), y.lag()))
    l = Rec(n - 1, where(d > 0, 0, v * a2(e)), lambda y: where(d > 0, y.lag(), (v - y.lag()) * a2(e) + y.lag()))
    return [nz(g, g / (g + l) * 100.0, 50)]


@spec('shmma', 'i')
def _(x, p):
    k = Idx()
    T = Sum(x[0], p)
    # weights (2 m + 1 - p) / 2 for m = 0 .. p - 1, the newest has m = p - 1
    S_ = (Sum(x[0] * k, p) - (k - p + 1) * T) + (1.0 - rv(p)) / 2 * T
    return [T / p + 6 * S_ / ((rv(p) + 1) * p)]


@spec('smi', 'iii')
def _(x, q, r, s):
    h, l, c = x
    hi, lo = Max(h, q), Min(l, q)
    n = Ema(Ema(c - 0.5 * (hi + lo), a2(r)), a2(s))
    d = Ema(Ema(hi - lo, a2(r)), a2(s))
    return [nz(d, 100 * n / (0.5 * d))]


@spec('t3', 'ir')
def _(x, p, v):
    def gd(y):
        e = Ema(y, a2(p))
        return e * (1 + v) - Ema(e, a2(p)) * v
    return [gd(gd(gd(x[0])))]


@spec('trima', 'i')
def _(x, p):
    a = idiv(p + 1, 2)
    b = p + 1 - a
    return [Sum(Sum(x[0], a), b) / (rv(a) * rv(b))]


@spec('tsi', 'ii', tol=1e-5)
def _(x, y, z):
    d = x[0] - x[0].lag()
    n, m = Ema(Ema(d, a2(y)), a2(z)), Ema(Ema(abs(d), a2(y)), a2(z))
    return [nz(m, n / m) * 100.0]


@spec('vi', 'i')
def _(x, p):
    h, l, c = x
    a, b, t = Sum(abs(h - l.lag()), p), Sum(abs(l - h.lag()), p), Sum(tr_from1(h, l, c), p)
    return [nz(a, a / t), nz(b, b / t)]


@spec('vwap', 'i')
def _(x, p):
    h, l, c, v = x
    n, d = Sum((h + l + c) / 3 * v, p), Sum(v, p)
    return [nz(n, n / d)]
