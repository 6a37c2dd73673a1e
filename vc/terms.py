"""Thin folding layer over z3 terms: Python ints / bools / Fractions are kept
concrete as long as possible."""
import z3
from fractions import Fraction

Z = z3
INT_MAX = 2 ** 31 - 1
INT_MIN = -2 ** 31


def isc(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zr(x):
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        return z3.Q(x.numerator, x.denominator)
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return a + b


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return 0
    return a - b


def mulc(a, c):
    if isc(a):
        return a * c
    if c == 1:
        return a
    if c == 0:
        return 0
    return a * c


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    return type(a) == type(b) and a == b


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if any(x.eq(y) for y in r):
            continue
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    for x in r:
        nx = Not(x)
        if any(nx.eq(y) for y in r if z3.is_expr(nx)):
            return False
    return z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if any(x.eq(y) for y in r):
            continue
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    for x in r:
        nx = Not(x)
        if any(nx.eq(y) for y in r):
            return True
    return z3.Or(*r)


def Implies(a, b):
    return Or(Not(a), b)


def cmp(op, a, b):
    if isc(a) and isc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if not isc(a) and not isc(b) and a.eq(b):
        return op in ('<=', '>=', '==')
    if isc(a):
        a = zr(a) if isinstance(a, Fraction) or (z3.is_expr(b) and z3.is_real(b)) else zi(a)
    if isc(b):
        b = zr(b) if isinstance(b, Fraction) or z3.is_real(a) else zi(b)
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '==':
        return a == b
    return a != b


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else Not(c)
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool):
            return Or(c, b) if a else And(Not(c), b)
        return Or(Not(c), a) if b else And(c, a)
    if isc(a):
        a = zr(a) if isinstance(a, Fraction) or z3.is_real(zz(b)) else zi(a)
    if isc(b):
        b = zr(b) if isinstance(b, Fraction) or z3.is_real(a) else zi(b)
    return z3.If(c, a, b)


def zz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return zr(x)
    return x


def iabs(x):
    return ite(cmp('>=', x, 0), x, sub(0, x))


def imax(a, b):
    if isc(a) and isc(b):
        return max(a, b)
    return ite(cmp('>=', a, b), a, b)
