"""Canonical polynomials over value terms.

A floating-point value is treated as the exact real it denotes.  Sums and
products are kept as polynomials over atoms (input elements, ghost values,
options, selections, reciprocals, mathematical functions); products of atoms
become applications of one uninterpreted function on canonically ordered
factors, so what reaches the solver is linear."""
import z3
from fractions import Fraction
from terms import *

R = z3.RealSort()
I = z3.IntSort()
MUL = z3.Function('fmul2', R, R, R)
INV = z3.Function('finv', R, R)


def snap(x):
    """the simplest rational that rounds to (about) the constant"""
    x = Fraction(x)
    if x == 0 or x.denominator <= 64:
        return x
    s, a = (-1 if x < 0 else 1), abs(x)
    e = a * Fraction(8, 2 ** 53)
    lo, hi = a - e, a + e
    # simplest fraction in [lo, hi] (Stern-Brocot by continued fractions)
    def simplest(lo, hi):
        f = lo.numerator // lo.denominator
        if f == lo:
            return Fraction(f)
        if f + 1 <= hi:
            return Fraction(f + 1)
        r = simplest(1 / (hi - f), 1 / (lo - f))
        return f + 1 / r
    q = simplest(lo, hi)
    return s * q if q.denominator <= 10 ** 6 and q.numerator < 10 ** 12 else x


class Atom:
    __slots__ = ('id', 't', 'key', 'kind', 'data', 'nz')

    def __init__(self, id, t, key, kind, data=None, nz=False):
        self.id, self.t, self.key, self.kind, self.data, self.nz = id, t, key, kind, data, nz


def lin_of(t, memo=None):
    """integer term as a linear form {atom id: (term, coefficient)}, constant"""
    if isinstance(t, int):
        return {}, t
    if z3.is_int_value(t):
        return {}, t.as_long()
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        d, c = {}, 0
        for n, x in enumerate(t.children()):
            s = -1 if k == z3.Z3_OP_SUB and n else 1
            d2, c2 = lin_of(x)
            c += s * c2
            for a, (u, q) in d2.items():
                q0 = d.get(a, (u, 0))[1] + s * q
                if q0:
                    d[a] = (u, q0)
                else:
                    d.pop(a, None)
        return d, c
    if k == z3.Z3_OP_UMINUS:
        d, c = lin_of(t.arg(0))
        return {a: (u, -q) for a, (u, q) in d.items()}, -c
    if k == z3.Z3_OP_MUL and t.num_args() == 2:
        for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            if z3.is_int_value(x):
                m = x.as_long()
                d, c = lin_of(y)
                if m == 0:
                    return {}, 0
                return {a: (u, q * m) for a, (u, q) in d.items()}, c * m
    if k == z3.Z3_OP_ITE:
        if z3.is_true(t.arg(0)) or z3.is_false(t.arg(0)):
            return lin_of(t.arg(1 if z3.is_true(t.arg(0)) else 2))
        d1, c1 = lin_of(t.arg(1))
        d2, c2 = lin_of(t.arg(2))
        if c1 == c2 and {a: q for a, (u, q) in d1.items()} == {a: q for a, (u, q) in d2.items()}:
            return d1, c1
    return {t.get_id(): (t, 1)}, 0


def lin_term(d, c):
    it = sorted(d.values(), key=lambda x: str(x[0]))
    r = None
    for u, q in it:
        y = u if q == 1 else q * u
        r = y if r is None else r + y
    if r is None:
        return c
    return r if c == 0 else r + c


class Ring:
    def __init__(self, ex):
        self.ex = ex
        self.atoms = []
        self.byt = {}
        self.cache = {}
        self.ixc = {}
        self.keep = []
        self.rmemo, self.rkeep = {}, []
        self.one = {(): Fraction(1)}
        self.factored = {}

    # -- indices --------------------------------------------------------------
    def ix(self, t):
        """canonical form of an integer term"""
        if isinstance(t, int):
            return t
        i = t.get_id()
        if i not in self.ixc:
            d, c = lin_of(t)
            r = lin_term(d, c)
            self.keep.append(t)
            self.ixc[i] = r
            if z3.is_expr(r):
                self.keep.append(r)
        return self.ixc[i]

    # -- atoms ------------------------------------------------------------------
    def atom(self, t, kind='t', data=None, key=None, nz=False):
        i = t.get_id()
        a = self.byt.get(i)
        if a is None:
            if key is None:
                key = kind + ':' + (str(t.decl()) if z3.is_app(t) else '')
            a = Atom(len(self.atoms), t, key, kind, data, nz)
            self.atoms.append(a)
            self.byt[i] = a
            self.keep.append(t)
        return a

    def var(self, a, e=1):
        return {((a.id, e),): Fraction(1)}

    # -- ring operations ----------------------------------------------------------
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            x = r.get(m, 0) + s * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def sub(self, p, q):
        return self.add(p, q, -1)

    def scale(self, p, c):
        return {m: x * c for m, x in p.items()} if c else {}

    def mulm(self, m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        at = self.atoms
        return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (at[x[0]].key, x[0])))

    def ifatom(self, m):
        for a, e in m:
            if self.atoms[a].kind == 'if':
                return a
        return None

    def mul(self, p, q):
        r = {}
        if len(p) == 1 and () in p:
            return self.scale(q, p[()])
        if len(q) == 1 and () in q:
            return self.scale(p, q[()])
        for m, c in p.items():
            for n, d in q.items():
                x = self.mulm(m, n)
                a = self.ifatom(x)
                if a is not None and (len(x) > 1 or x[0][1] != 1):
                    # selections move outwards
                    cnd, pa, pb = self.atoms[a].data
                    e = dict(x)[a]
                    rest = {tuple(y for y in x if y[0] != a): c * d}
                    t = self.mkif(cnd, self.mul(self.restrict(rest, cnd, True), self.power(self.restrict(pa, cnd, True), e)),
                                  self.mul(self.restrict(rest, cnd, False), self.power(self.restrict(pb, cnd, False), e)))
                    r = self.add(r, t)
                else:
                    y = r.get(x, 0) + c * d
                    if y:
                        r[x] = y
                    else:
                        r.pop(x, None)
        return self.reduce(r)

    def power(self, p, e):
        r = self.one
        for _ in range(e):
            r = self.mul(r, p)
        return r

    def restrict(self, p, c, v):
        """p where the condition is known"""
        if not any(self.ifatom(m) is not None for m in p):
            return p
        r = {}
        for m, k in p.items():
            a = self.ifatom(m)
            if a is not None and m == ((a, 1),):
                key = (a, c.get_id(), v)
                q = self.rmemo.get(key)
                if q is None:
                    cnd, pa, pb = self.atoms[a].data
                    if cnd.eq(c):
                        q = self.restrict(pa if v else pb, c, v)
                    else:
                        q = self.mkif(cnd, self.restrict(pa, c, v), self.restrict(pb, c, v))
                    self.rmemo[key] = q
                    self.rkeep.append(c)
                r = self.add(r, q, k)
            else:
                r = self.add(r, {m: k})
        return r

    def reduce(self, p):
        """partial fractions between option atoms is not needed: p * inv(p) is
        handled by exponents; other reciprocals stay as they are"""
        return p

    def mkif(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        a, b = self.restrict(a, c, True), self.restrict(b, c, False)
        common = {m: k for m, k in a.items() if b.get(m) == k}
        if common:
            a, b = self.sub(a, common), self.sub(b, common)
        if not a and not b:
            return common
        t = z3.If(c, zr(self.term(a)), zr(self.term(b)))
        at = self.atom(t, 'if', (c, a, b), key='~if')
        return self.add(common, self.var(at))

    def cleared(self, p):
        """p times the options it is divided by: zero exactly where p is"""
        need = {}
        def walk(p):
            for m in p:
                for a, e in m:
                    at = self.atoms[a]
                    if at.nz and e < 0:
                        need[a] = max(need.get(a, 0), -e)
                    if at.kind == 'if':
                        walk(at.data[1])
                        walk(at.data[2])
        walk(p)
        for a, e in need.items():
            p = self.mul({((a, e),): Fraction(1)}, p)
        return p

    # -- reciprocals ----------------------------------------------------------------
    def lead(self, p):
        at = self.atoms
        m = min(p, key=lambda m: (-sum(abs(e) for a, e in m), [(at[a].key, str(at[a].t), e) for a, e in m]))
        return p[m]

    def content(self, p, common=False):
        """(coefficient, common option monomial, primitive part)"""
        if not p:
            return Fraction(1), (), p
        com = None
        for m in p:
            d = {a: e for a, e in m if self.atoms[a].nz}
            if com is None:
                com = d
            else:
                com = {a: min(com.get(a, 0), d.get(a, 0)) for a in set(com) | set(d) if not common or a in com and a in d and com[a] * d[a] > 0}
        com = {a: e for a, e in com.items() if e}
        mm = tuple(sorted(com.items(), key=lambda x: (self.atoms[x[0]].key, x[0])))
        if mm:
            inv = tuple((a, -e) for a, e in mm)
            p = {self.mulm(m, inv): c for m, c in p.items()}
        k = self.lead(p)
        return k, mm, self.scale(p, 1 / k)

    def inv(self, p):
        if not p:
            return self.var(self.atom(INV(z3.RealVal(0)), 'inv', key='inv'))
        if len(p) == 1:
            (m, c), = p.items()
            if all(self.atoms[a].nz for a, e in m):
                return {tuple((a, -e) for a, e in m): 1 / c}
        k, mm, q = self.content(p)
        pre = {tuple((a, -e) for a, e in mm): 1 / k}
        if len(q) == 1:
            (m, c), = q.items()
            r = {(): 1 / c}
            for a, e in m:
                at = self.atoms[a]
                if at.kind == 'if' and e == 1:
                    cnd, x, y = at.data
                    r = self.mul(r, self.mkif(cnd, self.inv(x), self.inv(y)))
                    continue
                if e > 0:
                    x = self.var(self.atom(INV(at.t), 'inv', self.var(at), key='inv'))
                else:
                    x = self.var(at)
                for _ in range(abs(e)):
                    r = self.mul(r, x)
            return self.mul(pre, r)
        if all(self.isopt(a) for m in q for a, e in m):
            f = self.factors(q)
            if f is not None:
                r = pre
                k, fs = f
                r = self.scale(r, 1 / k)
                for x, e in fs:
                    a = self.optatom(x)
                    r = self.mul(r, {((a.id, -e),): Fraction(1)} if a.nz else self.power(self.var(self.atom(INV(a.t), 'inv', None, key='inv')), e))
                return r
        t = self.term(q)
        return self.mul(pre, self.var(self.atom(INV(t), 'inv', q, key='inv')))

    def isopt(self, a):
        return self.atoms[a].kind == 'opt'

    def optatom(self, q):
        """atom for an option polynomial (known to be nonzero or not)"""
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                return self.atoms[m[0][0]]
        t = self.term(q)
        nz = self.ex.decide(t != 0, True)
        return self.atom(t, 'optp', q, key='o:' + str(t), nz=bool(nz))

    def factors(self, q):
        import sympy
        names = {}
        e = 0
        for m, c in q.items():
            x = sympy.Rational(c.numerator, c.denominator)
            for a, k in m:
                if k < 0:
                    return None
                x = x * names.setdefault(a, sympy.Symbol('v%d' % a)) ** k
            e = e + x
        k, fs = sympy.factor_list(e)
        out = []
        k = Fraction(int(k.p), int(k.q))
        for f, n in fs:
            po = sympy.Poly(f, *names.values())
            r = {}
            for mon, c in po.terms():
                m = tuple(sorted(((a, x) for a, x in zip(names, mon) if x), key=lambda x: (self.atoms[x[0]].key, x[0])))
                r[m] = Fraction(int(c.p), int(c.q))
            l = self.lead(r)
            k *= l ** n
            out.append((self.scale(r, 1 / l), n))
        return k, out

    # -- terms ------------------------------------------------------------------------
    def monoterm(self, m):
        fs = []
        for a, e in m:
            at = self.atoms[a]
            if e > 0:
                fs += [at.t] * e
            else:
                it = INV(at.t)
                fs += [it] * -e
        t = fs[-1]
        for k in range(len(fs) - 2, -1, -1):
            t = MUL(fs[k], t)
        if len(fs) > 1:
            if t.get_id() not in self.byt:
                pass
            self.keep.append(t)
            self.ex.product(m, t)
        return t

    def term(self, p):
        if not p:
            return Fraction(0)
        if len(p) == 1 and () in p:
            return p[()]
        at = self.atoms
        r = None
        for m in sorted(p, key=lambda m: ([at[a].key for a, e in m], m)):
            c = p[m]
            t = z3.Q(c.numerator, c.denominator) if m == () else self.monoterm(m)
            if m != () and c != 1:
                t = z3.Q(c.numerator, c.denominator) * t
            r = t if r is None else r + t
        self.keep.append(r)
        self.cache.setdefault(r.get_id(), p)
        return r

    # -- from terms --------------------------------------------------------------------
    def of(self, t):
        if isinstance(t, (int, Fraction)):
            return self.const(snap(t))
        i = t.get_id()
        p = self.cache.get(i)
        if p is None:
            p = self.of1(t)
            self.cache[i] = p
            self.keep.append(t)
        return p

    def of1(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return self.const(snap(Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else t.as_long()))
        if z3.is_int(t):
            return self.ofint(t)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.sub(r, self.of(c))
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.scale(self.of(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.one
            for c in ch:
                r = self.mul(r, self.of(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.of(ch[0]), self.inv(self.of(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            e = int(str(ch[1].numerator_as_long() if z3.is_rational_value(ch[1]) else ch[1]))
            if 0 <= e <= 4:
                return self.power(self.of(ch[0]), e)
        if k == z3.Z3_OP_TO_REAL:
            return self.ofint(ch[0])
        if k == z3.Z3_OP_ITE:
            return self.mkif(self.ex.cond(ch[0]), self.of(ch[1]), self.of(ch[2]))
        if t.decl().name() == 'fmul2':
            return self.mul(self.of(ch[0]), self.of(ch[1]))
        if t.decl().name() == 'finv':
            a = self.byt.get(t.get_id())
            if a is not None:
                return self.var(a)
            return self.inv(self.of(ch[0]))
        a = self.byt.get(t.get_id())
        if a is not None:
            return self.var(a)
        if t.decl().name().startswith('m_') and ch:
            return self.ex.fun(t.decl().name()[2:], [self.of(c) for c in ch])
        p = self.ex.indexed(t)
        if p is not None:
            return p
        return self.var(self.ex.env.classify(self.ex, t))

    def ofint(self, t):
        """real value of an integer term"""
        d, c = lin_of(t)
        r = self.const(c)
        for u, q in d.values():
            r = self.add(r, self.intatom(u), q)
        return r

    def intatom(self, u):
        k = u.decl().kind()
        if k == z3.Z3_OP_MUL:
            r = self.one
            for c in u.children():
                r = self.mul(r, self.ofint(c))
            return r
        if u.decl().name() == 'imul':
            return self.mul(self.ofint(u.arg(0)), self.ofint(u.arg(1)))
        if k == z3.Z3_OP_ITE:
            return self.mkif(u.arg(0), self.ofint(u.arg(1)), self.ofint(u.arg(2)))
        t = z3.ToReal(u)
        a = self.byt.get(t.get_id())
        if a is not None:
            return self.var(a)
        return self.var(self.ex.env.classify(self.ex, t))
