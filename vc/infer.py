"""Guessing of loop invariants (integers and pointer offsets) from traces, and
the Houdini filter that keeps an inductive subset.  Nothing guessed here is
believed: every invariant is re-established by the solver on this run."""
import z3
from fractions import Fraction
from terms import *
from execu import FV, PV, ZERO


class NA(Exception):
    pass


# ---- vocabulary ----------------------------------------------------------
def vget(ex, v, st, R):
    """term for a vocabulary item in a symbolic state"""
    k = v[0]
    if k == 'p':
        t = R.get(v[1])
        if t is None:
            raise NA
        if isinstance(t, bool) or z3.is_bool(zz(t)):
            return ite(t, 1, 0)
        if isinstance(t, FV):
            return fint_of(t)
        return t
    if k == 'q':
        t = R.get(v[1])
        if t is None or not isinstance(t, PV):
            raise NA
        return pv_off(t)
    if k == 'm':
        t = st.m.get(('c', v[1], v[2]))
        if t is None:
            t = ex.initial.get(('c', v[1], v[2]))
            if t is None:
                if v[1] not in ex.objs:
                    raise NA
                t = ex.init_cell(('c', v[1], v[2]), 'i32')
                ex.initial[('c', v[1], v[2])] = t
        if t is ZERO:
            return 0
        if isinstance(t, (FV, PV)):
            raise NA
        return t
    if k == 'mq':
        t = st.m.get(('c', v[1], v[2]))
        if t is None:
            t = ex.initial.get(('c', v[1], v[2]))
        if not isinstance(t, PV):
            raise NA
        return pv_off(t)
    if k == 'W':
        t = st.m.get(('W', v[1]))
        if t is None:
            t = ex.env.ghost_default(ex, ('W', v[1]))
        return t
    if k == 'sym':
        return ex.env.sym(ex, v[1])
    raise NA


def fint_of(v):
    t = v.t
    if t is None:
        raise NA
    if isc(t):
        if Fraction(t).denominator != 1:
            raise NA
        return int(t)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return ite(t.arg(0), fint_of(FV(t.arg(1))), fint_of(FV(t.arg(2))))
    if z3.is_rational_value(t):
        return fint_of(FV(t.as_fraction()))
    if z3.is_add(t):
        r = 0
        for a in t.children():
            r = add(r, fint_of(FV(a)))
        return r
    if z3.is_sub(t):
        return sub(fint_of(FV(t.arg(0))), fint_of(FV(t.arg(1))))
    raise NA


def untraced(cols, vary, pairs=()):
    """candidates for a loop no concrete run reached: order relations between
    what varies and everything of the same sort"""
    out = []
    for x in sorted(vary):
        isq = cols[x][0] in ('q', 'mq')
        out.append(Lin([(cols[x], 1)], 0, '>='))
        out.append(Lin([(cols[x], 1)], -1, '>='))
        for y in range(len(cols)):
            if y == x or (cols[y][0] in ('q', 'mq')) != isq:
                continue
            for c in (0, -1):
                out.append(Lin([(cols[x], 1), (cols[y], -1)], c, '>='))
                out.append(Lin([(cols[x], -1), (cols[y], 1)], c, '>='))
    return out[:1200]


def untraced_ranks(cols, vary):
    out = []
    for x in sorted(vary):
        for s in (1, -1):
            out.append(([(cols[x], s)], 0))
            for y in range(len(cols)):
                if y != x and y not in vary and (cols[y][0] in ('q', 'mq')) == (cols[x][0] in ('q', 'mq')):
                    out.append(([(cols[x], s), (cols[y], -s)], 0))
    return out[:120]


def pv_off(p):
    a = [x for x in p.alts if x[1] is not None and x[1] != '?']
    if len(a) != 1 or not isinstance(a[0][4], int):
        raise NA
    return a[0][3]


class Lin:
    """sum c_i*v_i + c (>=|==) 0"""
    guard = None

    def __init__(self, cs, c, op, kind='lin'):
        self.cs, self.c, self.op = cs, c, op
        self.alive = True

    def formula(self, ex, h, st, R):
        try:
            t = self.c
            for v, k in self.cs:
                t = add(t, mulc(vget(ex, v, st, R), k))
        except NA:
            return None
        return cmp('==' if self.op == '==' else '>=', t, 0)

    def __str__(self):
        return ' + '.join('%s*%s' % (k, '.'.join(map(str, v))) for v, k in self.cs) + ' + %s %s 0' % (self.c, self.op)


class MaxZ:
    """x == max(0, sum)   or x == min(...)"""
    guard = None

    def __init__(self, x, cs, c):
        self.x, self.cs, self.c = x, cs, c

    def formula(self, ex, h, st, R):
        try:
            t = self.c
            for v, k in self.cs:
                t = add(t, mulc(vget(ex, v, st, R), k))
            x = vget(ex, self.x, st, R)
        except NA:
            return None
        return cmp('==', x, ite(cmp('>=', t, 0), t, 0))

    def __str__(self):
        return '%s == max(0, %s + %s)' % ('.'.join(map(str, self.x)), ' + '.join('%s*%s' % (k, '.'.join(map(str, v))) for v, k in self.cs), self.c)


class MinC:
    """x == min(1, y + c)"""
    guard = None

    def __init__(self, x, y, c):
        self.x, self.y, self.c = x, y, c

    def formula(self, ex, h, st, R):
        try:
            t = add(vget(ex, self.y, st, R), self.c)
            x = vget(ex, self.x, st, R)
        except NA:
            return None
        return cmp('==', x, ite(cmp('>=', t, 1), 1, t))

    def __str__(self):
        return '%s == min(1, %s + %s)' % ('.'.join(map(str, self.x)), '.'.join(map(str, self.y)), self.c)


class LeMax:
    """x <= max(k, y + c)"""
    guard = None

    def __init__(self, x, k, y, c):
        self.x, self.k, self.y, self.c = x, k, y, c

    def formula(self, ex, h, st, R):
        try:
            x, y = vget(ex, self.x, st, R), vget(ex, self.y, st, R)
        except NA:
            return None
        return Or(cmp('<=', x, self.k), cmp('<=', x, add(y, self.c)))

    def __str__(self):
        return '%s <= max(%s, %s + %s)' % ('.'.join(map(str, self.x)), self.k, '.'.join(map(str, self.y)), self.c)


def lemax(cols, rows, vary):
    """upper bounds of loop counters whose loop may not run"""
    out = []
    for x in sorted(vary):
        if cols[x][0] != 'p' or not rows:
            continue
        lo = min(r[x] for r in rows)
        for y in range(len(cols)):
            if y in vary or not -2 <= lo <= 4:
                continue
            if all(r[y] >= lo for r in rows):
                continue
            for c in (-1, 0, 1):
                if all(r[x] <= max(lo, r[y] + c) for r in rows):
                    if any(r[x] == r[y] + c > lo for r in rows):
                        out.append(LeMax(cols[x], lo, cols[y], c))
                    break
    return out[:8]


class NonNull:
    """a pointer variable or cell is not null"""
    guard = None

    def __init__(self, v):
        self.v = v

    def formula(self, ex, h, st, R):
        if self.v[0] == 'q':
            t = R.get(self.v[1])
        else:
            t = st.m.get(('c', self.v[1], self.v[2]))
            if t is None:
                t = ex.initial.get(('c', self.v[1], self.v[2]))
        if not isinstance(t, PV):
            return None
        return Not(Or(*[g for (g, o, bs, e, b) in t.alts if o is None]))

    def __str__(self):
        return '.'.join(map(str, self.v)) + ' != null'


# ---- affine hull ---------------------------------------------------------
def nullspace(rows, ncol):
    """rows: list of integer vectors (with trailing 1). Returns basis of
    vectors c with row . c == 0 for all rows."""
    M = []
    piv = []
    for r in rows:
        r = [Fraction(x) for x in r]
        for (p, m) in zip(piv, M):
            if r[p]:
                f = r[p]
                r = [a - f * b for a, b in zip(r, m)]
        p = next((i for i, x in enumerate(r) if x), None)
        if p is None:
            continue
        f = r[p]
        r = [x / f for x in r]
        for k in range(len(M)):
            if M[k][p]:
                f = M[k][p]
                M[k] = [a - f * b for a, b in zip(M[k], r)]
        M.append(r)
        piv.append(p)
        if len(M) == ncol:
            return []
    free = [i for i in range(ncol) if i not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * ncol
        v[f] = Fraction(1)
        for p, m in zip(piv, M):
            v[p] = -m[f]
        out.append(v)
    return out


def intvec(v):
    import math
    l = 1
    for x in v:
        l = l * x.denominator // math.gcd(l, x.denominator)
    w = [int(x * l) for x in v]
    g = 0
    for x in w:
        g = math.gcd(g, x)
    return [x // g for x in w] if g else w


def candidates(cols, rows, vary, limit=6, pairs=()):
    """cols: vocabulary list; rows: list of tuples of ints; vary: set of
    indices of the values that change in the loop."""
    cand = []
    if not rows:
        return cand
    rows = list(dict.fromkeys(rows))
    n = len(cols)
    # order: context columns first so that varying ones are expressed by them
    order = [i for i in range(n) if i not in vary] + [i for i in range(n) if i in vary]
    # basis of context columns: drop those affine in earlier ones
    import random
    rr = random.Random(1)
    sub_rows = rows if len(rows) <= 400 else rr.sample(rows, 400)
    basis = []
    seen = {}
    ech = Ech()
    cst = [1] * len(sub_rows)
    ech.addcol(cst)
    for i in order:
        col = [r[i] for r in sub_rows]
        if i in vary:
            basis.append(i)
            continue
        if ech.addcol(col):
            basis.append(i)
    vec = [[r[i] for i in basis] + [1] for r in rows]
    # reversed column order gives pivots on the varying columns last; we want
    # equations solved for varying columns: put varying columns first
    bo = [k for k, i in enumerate(basis) if i in vary] + [k for k, i in enumerate(basis) if i not in vary]
    vec2 = [[v[k] for k in bo] + [1] for v in vec]
    # nullspace with free variables chosen among the last columns -> reverse
    m = len(bo) + 1
    vec3 = [list(reversed(v)) for v in vec2]
    for v in nullspace(vec3, m):
        w = intvec(list(reversed(v)))
        if max(abs(x) for x in w[:-1]) > 64:
            continue
        cs = [(cols[basis[bo[k]]], w[k]) for k in range(len(bo)) if w[k]]
        if not any(basis[bo[k]] in vary and w[k] for k in range(len(bo))):
            continue
        if len(cs) > limit:
            continue
        cand.append(Lin(cs, w[-1], '=='))
    # max(0, affine)
    for x in sorted(vary):
        pos = [r for r in rows if r[x] > 0]
        zer = [r for r in rows if r[x] == 0]
        if len(pos) < 3 or not zer or len(pos) + len(zer) != len(rows):
            continue
        others = [k for k in range(n) if k != x]
        use = [k for k in basis if k != x]
        vx = [[1] + [r[k] for k in use] + [r[x]] for r in pos]
        # solve x as affine function of the others
        ns = nullspace([list(reversed(v)) for v in vx], len(use) + 2)
        done = 0
        for v in ns:
            w = list(reversed(v))
            if not w[-1]:
                continue
            w = [-q / w[-1] for q in w]
            if any(q.denominator != 1 for q in w) or sum(1 for q in w[1:-1] if q) > 4:
                continue
            if not any(w[1 + j] and use[j] in vary for j in range(len(use))):
                continue
            f = lambda r: int(w[0]) + sum(int(w[1 + j]) * r[use[j]] for j in range(len(use)))
            if all(r[x] == max(0, f(r)) for r in rows):
                cand.append(MaxZ(cols[x], [(cols[use[j]], int(w[1 + j])) for j in range(len(use)) if w[1 + j]], int(w[0])))
                done += 1
                if done >= 2:
                    break
    # directed: x == max(0, y - z + c) for loop variables y and context z
    nd = 0
    for x in sorted(vary):
        colx = [r[x] for r in rows]
        if min(colx) != 0 or max(colx) == 0:
            continue
        ctx = [None] + [k for k in basis if k not in vary]
        for y in sorted(vary):
            if y == x or nd >= 60:
                continue
            for z in ctx:
                ds = set(r[x] - r[y] + (r[z] if z is not None else 0) for r in rows if r[x] > 0)
                if len(ds) != 1:
                    continue
                c = ds.pop()
                if abs(c) > 32:
                    continue
                if all(r[x] == max(0, r[y] - (r[z] if z is not None else 0) + c) for r in rows) and \
                        any(r[y] - (r[z] if z is not None else 0) + c < 0 for r in rows):
                    cand.append(MaxZ(cols[x], [(cols[y], 1)] + ([(cols[z], -1)] if z is not None else []), c))
                    nd += 1
    for x in sorted(vary):
        colx = [r[x] for r in rows]
        if cols[x][0] == 'W' and min(colx) == 0 and max(colx) == 1:
            for y in sorted(vary):
                if y != x and cols[y][0] == 'p':
                    c = -min(r[y] for r in rows)
                    if abs(c) <= 3 and all(r[x] == min(1, r[y] + c) for r in rows):
                        cand.append(MinC(cols[x], cols[y], c))
    # comparisons made by the loop itself
    ix = {v: k for k, v in enumerate(cols)}
    for a, b in pairs:
        if a in ix and b in ix:
            d = [r[ix[b]] - r[ix[a]] for r in rows]
            for s, m in ((1, min(d)), (-1, -max(d))):
                if m >= 0:
                    cand.append(Lin([(b, s), (a, -s)], 0, '>='))
                elif m >= -1:
                    cand.append(Lin([(b, s), (a, -s)], 1, '>='))
    # unary and difference bounds
    allc = {}
    reps = []
    for i in order:
        col = tuple(r[i] for r in rows)
        if col in allc:
            continue
        allc[col] = i
        reps.append(i)
    for x in sorted(vary):
        col = [r[x] for r in rows]
        lo, hi = min(col), max(col)
        if -8 <= lo <= 8:
            cand.append(Lin([(cols[x], 1)], -lo, '>='))
        if lo > 0:
            cand.append(Lin([(cols[x], 1)], 0, '>='))
        if hi <= (31 if cols[x][0] == 'm' and cols[x][1].startswith(('STRM', 'SUB', 'H:')) else 4) and hi >= -8:
            cand.append(Lin([(cols[x], -1)], hi, '>='))
        for y in reps:
            if y == x or (y in vary and y < x):
                continue
            d = [r[x] - r[y] for r in rows]
            lo, hi = min(d), max(d)
            if abs(lo) <= 3 and lo != hi:
                cand.append(Lin([(cols[x], 1), (cols[y], -1)], -lo, '>='))
                if lo in (1, 2, 3):
                    cand.append(Lin([(cols[x], 1), (cols[y], -1)], 0, '>='))
            if abs(hi) <= 3 and lo != hi:
                cand.append(Lin([(cols[x], -1), (cols[y], 1)], hi, '>='))
                if hi in (-1, -2, -3):
                    cand.append(Lin([(cols[x], -1), (cols[y], 1)], 0, '>='))
            s = [r[x] + r[y] for r in rows]
            if y in vary and abs(min(s)) <= 2 and min(s) != max(s) and (min(col) < 0 or cols[x][0] == 'p' and cols[y][0] == 'p'):
                cand.append(Lin([(cols[x], 1), (cols[y], 1)], -min(s), '>='))
    return cand


class Ech:
    def __init__(self):
        self.rows = []

    def addcol(self, col):
        r = [Fraction(x) for x in col]
        for p, m in self.rows:
            if r[p]:
                f = r[p]
                r = [a - f * b for a, b in zip(r, m)]
        p = next((i for i, x in enumerate(r) if x), None)
        if p is None:
            return False
        f = r[p]
        self.rows.append((p, [x / f for x in r]))
        return True
