"""What an array holds, as a function of the index (value proofs).

A Content is a stack of layers, newest last:
  St(g, ix, v)                   element ix is v
  Map(g, lo, hi, p)              element j (lo <= j < hi) is p.value(j)
  Un(g, lo, hi, name)            unknown elements
  Cp(g, lo, hi, src, d)          element j is src[j + d]
over unknown elements, zeroes or a choice of two Contents."""
import z3
from terms import *
from execu import FV
from fractions import Fraction


class St_:
    __slots__ = ('g', 'ix', 'v')
    def __init__(self, g, ix, v): self.g, self.ix, self.v = g, ix, v
    def inside(self, j): return cmp('==', j, self.ix)
    def clash(self, lo, hi): return And(cmp('>=', self.ix, lo), cmp('<', self.ix, hi))
    def value(self, ex, j): return ex.P(self.v)
    def guard(self, g): return St_(g, self.ix, self.v)
    def subst(self, f): return St_(f(self.g), f(self.ix), f(self.v))


class Rg:
    def inside(self, j): return And(cmp('<=', self.lo, j), cmp('<', j, self.hi))
    def clash(self, lo, hi): return And(cmp('<', self.lo, hi), cmp('<', lo, self.hi), cmp('<', self.lo, self.hi))


class Map(Rg):
    """element j is co*node(s*j + c); other (0) where s*j + c < first"""
    __slots__ = ('g', 'lo', 'hi', 'co', 'node', 's', 'c', 'first', 'other')
    def __init__(self, g, lo, hi, co, node, s, c, first=None, other=None):
        self.g, self.lo, self.hi, self.co, self.node, self.s, self.c, self.first, self.other = g, lo, hi, co, node, s, c, first, other
    def bar(self, j): return add(mulc(j, self.s), self.c)
    def inside(self, j):
        r = Rg.inside(self, j)
        if self.first is not None and self.other is None:
            r = And(r, cmp('>=', self.bar(j), self.first))
        return r
    def value(self, ex, j):
        if self.node is None:
            return ex.ring.const(self.co)
        b = ex.ring.ix(self.bar(j))
        v = lambda: ex.ring.scale(ex.env.term(ex, self.node, b), self.co)
        if self.first is None or self.other is None:
            return v()
        c = cmp('>=', b, self.first)
        q = ex.decide(c)
        o = ex.ring.const(self.other)
        return v() if q is True else o if q is False else ex.ring.mkif(c, v(), o)
    def guard(self, g): return Map(g, self.lo, self.hi, self.co, self.node, self.s, self.c, self.first, self.other)
    def subst(self, f): return Map(f(self.g), f(self.lo), f(self.hi), self.co, self.node, self.s, f(self.c), None if self.first is None else f(self.first), self.other)


class Un(Rg):
    __slots__ = ('g', 'lo', 'hi', 'name')
    def __init__(self, g, lo, hi, name): self.g, self.lo, self.hi, self.name = g, lo, hi, name
    def value(self, ex, j): return unknown(ex, self.name, j)
    def guard(self, g): return Un(g, self.lo, self.hi, self.name)
    def subst(self, f): return Un(f(self.g), f(self.lo), f(self.hi), self.name)


class Cp(Rg):
    __slots__ = ('g', 'lo', 'hi', 'src', 'd')
    def __init__(self, g, lo, hi, src, d): self.g, self.lo, self.hi, self.src, self.d = g, lo, hi, src, d
    def value(self, ex, j): return self.src.at(ex, add(j, self.d))
    def guard(self, g): return Cp(g, self.lo, self.hi, self.src, self.d)
    def subst(self, f): return Cp(f(self.g), f(self.lo), f(self.hi), self.src.subst(f), f(self.d))


def unknown(ex, name, j):
    t = z3.Function('A!' + name, z3.IntSort(), z3.RealSort())(zi(ex.ring.ix(j)))
    return ex.P(t)


class Content:
    __slots__ = ('base', 'layers')

    def __init__(self, base, layers=()):
        self.base, self.layers = base, tuple(layers)

    def put(self, l):
        return Content(self.base, self.layers + (l,))

    def at(self, ex, j, skip=()):
        """value at an index, as a polynomial"""
        j = ex.ring.ix(j)
        todo = []
        for n in range(len(self.layers) - 1, -1, -1):
            l = self.layers[n]
            if n in skip:
                continue
            c = And(l.g, l.inside(j))
            q = ex.decide(c)
            if q is False:
                continue
            v = l.value(ex, j)
            if q is True:
                r = v
                break
            todo.append((c, v))
        else:
            r = self.under(ex, j)
        for c, v in reversed(todo):
            r = ex.ring.mkif(c, v, r)
        return r

    def under(self, ex, j):
        b = self.base
        if b == 0:
            return {}
        if isinstance(b, str):
            return unknown(ex, b, j)
        c, x, y = b
        q = ex.decide(c) if z3.is_expr(c) else c
        if q is True:
            return x.at(ex, j)
        if q is False:
            return y.at(ex, j)
        return ex.ring.mkif(c, x.at(ex, j), y.at(ex, j))

    def subst(self, f):
        b = self.base
        if isinstance(b, tuple):
            b = (f(b[0]), b[1].subst(f), b[2].subst(f))
        return Content(b, [l.subst(f) for l in self.layers])

    def eq(self, o):
        return self is o

    def region(self, ex, e, n):
        """the map all of the elements e <= j < e+n come from, or None"""
        hi = add(e, n)
        for l in reversed(self.layers):
            c = And(l.g, l.clash(e, hi))
            if ex.decide(c) is False:
                continue
            if isinstance(l, Map) and l.s == 1 and ex.decide(And(l.g, cmp('<=', l.lo, e), cmp('>=', l.hi, hi))) is True \
                    and (l.first is None or ex.decide(cmp('>=', l.bar(e), l.first)) is True):
                return l
            if isinstance(l, Cp) and ex.decide(And(l.g, cmp('<=', l.lo, e), cmp('>=', l.hi, hi))) is True:
                m = l.src.region(ex, add(e, l.d), n)
                return m and Map(True, e, hi, m.co, m.node, 1, add(m.c, l.d), None, None)
            return None
        if isinstance(self.base, tuple):
            c, x, y = self.base
            q = ex.decide(c) if z3.is_expr(c) else c
            if q is not None:
                return (x if q else y).region(ex, e, n)
        return None


def merge(c, a, b):
    """a where c holds, else b"""
    if a is b:
        return a
    k = 0
    while k < len(a.layers) and k < len(b.layers) and a.layers[k] is b.layers[k]:
        k += 1
    if a.base is not b.base and a.base != b.base:
        return Content((c, a, b))
    ls = list(a.layers[:k])
    ls += [l.guard(And(c, l.g)) for l in a.layers[k:]]
    ls += [l.guard(And(Not(c), l.g)) for l in b.layers[k:]]
    return Content(a.base, ls)
