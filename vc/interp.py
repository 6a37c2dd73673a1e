"""Concrete interpreter for the IR (used to collect loop traces from which
candidate invariants are guessed; never a decider)."""
import math
import ir


class Obj:
    __slots__ = ('name', 'size', 'm', 'zero', 'freed', 'kind')

    def __init__(self, name, size, kind='heap', zero=False):
        self.name, self.size, self.m, self.zero, self.freed, self.kind = name, size, {}, zero, False, kind

    def __repr__(self):
        return '<%s>' % self.name


NULL = Obj('null', 0, 'null')
NULLP = (NULL, 0)


class Trap(Exception):
    pass


class CppThrow(Exception):
    pass


def wrap(v, n):
    m = 1 << n
    v &= m - 1
    if v >= m >> 1:
        v -= m
    return v


def bits(t):
    return int(t[1:])


def fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return math.inf * s


def sdivi(a, b):
    if b == 0:
        raise Trap('div0')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def m1(f):
    def g(x):
        try:
            return f(x)
        except (ValueError, OverflowError):
            return math.nan
    return g


def fpow(a, b):
    try:
        r = math.pow(a, b)
        return r
    except (ValueError, OverflowError):
        return math.nan


MATH1 = {n: m1(getattr(math, n)) for n in ('sqrt', 'log', 'log10', 'exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'fabs')}
MATH1['fabs'] = abs
MATH1['floor'] = m1(lambda x: float(math.floor(x)))
MATH1['ceil'] = m1(lambda x: float(math.ceil(x)))
MATH1['trunc'] = m1(lambda x: float(math.trunc(x)))
MATH1['round'] = m1(lambda x: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1))
MATH1['rint'] = MATH1['nearbyint'] = m1(lambda x: float(round(x)))


def toint(x):
    if x != x or abs(x) > 1e18:
        return -2 ** 31
    return int(x)


def fcmp(pred, a, b):
    un = a != a or b != b
    if pred[0] == 'o' and pred != 'ord':
        if un:
            return 0
        p = pred[1:]
    elif pred == 'ord':
        return int(not un)
    elif pred == 'uno':
        return int(un)
    elif pred[0] == 'u':
        if un:
            return 1
        p = pred[1:]
    else:
        return int(pred == 'true')
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])


class Interp:
    def __init__(self, mods, maxsteps=400000):
        self.mods = mods                # list of modules searched for callees
        self.hook = None
        self.maxsteps = maxsteps
        self.globals = {}
        self.cfgs = {}
        self.objmap = {}

    def mk(self, name, size):
        if size < 0 or size > 1 << 24:
            raise Trap('alloc')
        o = Obj(name, size)
        self.objmap[name] = o
        return o

    def find(self, name):
        for m in self.mods:
            if name in m.funcs:
                return m, m.funcs[name]
        return None, None

    def glob(self, mod, name):
        k = (id(mod), name)
        if k in self.globals:
            return (self.globals[k], 0)
        if name in mod.funcs:
            o = Obj('F:' + name, 0, 'func')
            self.globals[k] = o
            return (o, 0)
        if name not in mod.globals:
            for m in self.mods:
                if name in m.globals and m.globals[name][0] is not None:
                    return self.glob(m, name)
            o = Obj('G:' + name, 8, 'glob')
            self.globals[k] = o
            return (o, 0)
        ty, init, c = mod.globals[name]
        o = Obj('G:' + name, mod.sizeof(ty) if ty is not None else 8, 'glob')
        self.globals[k] = o
        if init is not None and ty is not None:
            self.initg(mod, o, 0, ty, init)
        return (o, 0)

    def initg(self, mod, o, off, ty, v):
        if v[0] in ('zero', 'undef'):
            o.zero = True
            return
        if v[0] == 'agg':
            if ty[0] == 'arr':
                s = mod.sizeof(ty[2])
                for i, e in enumerate(v[1]):
                    self.initg(mod, o, off + i * s, ty[2], e)
            else:
                offs = mod.fields(ty)[0]
                for f, et, e in zip(offs, mod.elems(ty), v[1]):
                    self.initg(mod, o, off + f, et, e)
            return
        if v[0] in ('i', 'f'):
            o.m[off] = v[1]
        elif v[0] == 'null':
            o.m[off] = NULLP
        elif v[0] == 'g':
            o.m[off] = self.glob(mod, v[1])

    def val(self, R, v, mod):
        k = v[0]
        if k == 'r':
            return R[v[1]]
        if k == 'i' or k == 'f':
            return v[1]
        if k == 'null':
            return NULLP
        if k == 'undef' or k == 'zero':
            t = v[1]
            return NULLP if t == 'ptr' else (0.0 if t == 'double' else ([None] * 4 if not isinstance(t, str) else 0))
        if k == 'g':
            return self.glob(mod, v[1])
        if k == 'cgep':
            b = self.val(R, v[2], mod)
            return self.gep(mod, b, v[1], [self.val(R, x, mod) for _, x in v[3]])
        raise ir.IRError('interp value %r' % (v,))

    def gep(self, mod, base, ty, idx):
        o, off = base
        off += mod.sizeof(ty) * idx[0]
        for i in idx[1:]:
            if ty[0] == 'arr':
                ty = ty[2]
                off += mod.sizeof(ty) * i
            else:
                off += mod.fields(ty)[0][i]
                ty = mod.elems(ty)[i]
        return (o, off)

    def load(self, p, ty):
        o, off = p
        if o.size is not None:
            s = 8 if ty in ('double', 'ptr', 'i64') else (4 if ty == 'i32' else 1)
            if off < 0 or off + s > o.size or o.freed:
                raise Trap('load oob %s %d/%d' % (o.name, off, o.size))
        v = o.m.get(off)
        if v is None:
            return NULLP if ty == 'ptr' else (0.0 if ty == 'double' else 0)
        if ty == 'ptr':
            return v if isinstance(v, tuple) else NULLP
        if ty == 'double':
            return v if isinstance(v, (float, int)) and not isinstance(v, bool) else 0.0
        return v if isinstance(v, int) else 0

    def store(self, p, ty, v):
        o, off = p
        s = 8 if ty in ('double', 'ptr', 'i64') else (4 if ty == 'i32' else 1)
        if off < 0 or off + s > o.size or o.freed or o.kind in ('ro',):
            raise Trap('store oob %s %d/%d' % (o.name, off, o.size))
        o.m[off] = v

    def call(self, name, args):
        m, f = self.find(name)
        if f is None:
            raise ir.IRError('no function ' + name)
        return self.run(m, f, args)

    def run(self, mod, f, args):
        f.parser.body(f)
        R = {}
        for (t, n), a in zip(f.params, args):
            R[n] = a
        prev, cur = None, f.order[0]
        steps = 0
        hook = self.hook
        while True:
            b = f.blocks[cur]
            phis = []
            k = 0
            ins = b.instrs
            while ins[k].op == 'phi':
                i = ins[k]
                phis.append((i.res, self.val(R, i.args[i.x.index(prev)], mod)))
                k += 1
            for r, v in phis:
                R[r] = v
            if hook is not None:
                hook(f, cur, R, prev)
            steps += len(ins)
            self.maxsteps -= len(ins)
            if self.maxsteps < 0:
                raise Trap('steps')
            for i in ins[k:]:
                op = i.op
                if op == 'br':
                    if i.args:
                        nxt = i.x[0] if self.val(R, i.args[0], mod) else i.x[1]
                    else:
                        nxt = i.x[0]
                    prev, cur = cur, nxt
                    break
                if op == 'ret':
                    return self.val(R, i.args[0], mod) if i.args else None
                if op == 'switch':
                    v = self.val(R, i.args[0], mod)
                    nxt = i.x[0]
                    for c, t in i.x[1]:
                        if c == v:
                            nxt = t
                    prev, cur = cur, nxt
                    break
                if op == 'unreachable':
                    raise Trap('unreachable')
                if op == 'resume':
                    raise CppThrow()
                if op == 'invoke':
                    try:
                        r = self.callop(mod, i, R)
                        if i.res is not None:
                            R[i.res] = r
                        nxt = i.x['normal']
                    except CppThrow:
                        nxt = i.x['unwind']
                    prev, cur = cur, nxt
                    break
                r = self.op(mod, i, R)
                if i.res is not None:
                    R[i.res] = r

    def op(self, mod, i, R):
        op = i.op
        val = self.val
        if op == 'load':
            return self.load(val(R, i.args[0], mod), i.ty)
        if op == 'store':
            return self.store(val(R, i.args[1], mod), i.ty, val(R, i.args[0], mod))
        if op == 'getelementptr':
            return self.gep(mod, val(R, i.args[0], mod), i.x[0], [val(R, a, mod) for a in i.args[1:]])
        if op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'udiv', 'urem'):
            a, b = val(R, i.args[0], mod), val(R, i.args[1], mod)
            n = bits(i.ty)
            if n == 1:
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b}[op]
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'sdiv':
                r = sdivi(a, b)
            elif op == 'srem':
                r = a - b * sdivi(a, b)
            elif op in ('udiv', 'urem', 'lshr'):
                a %= 1 << n
                b %= 1 << n
                if op != 'lshr' and b == 0:
                    raise Trap('div0')
                r = a // b if op == 'udiv' else (a % b if op == 'urem' else a >> b)
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            else:
                r = a >> b
            return wrap(r, n)
        if op == 'fadd':
            return val(R, i.args[0], mod) + val(R, i.args[1], mod)
        if op == 'fsub':
            return val(R, i.args[0], mod) - val(R, i.args[1], mod)
        if op == 'fmul':
            return val(R, i.args[0], mod) * val(R, i.args[1], mod)
        if op == 'fdiv':
            return fdiv(val(R, i.args[0], mod), val(R, i.args[1], mod))
        if op == 'fneg':
            return -val(R, i.args[0], mod)
        if op == 'icmp':
            return self.icmp(i.x[0], i.x[1], val(R, i.args[0], mod), val(R, i.args[1], mod))
        if op == 'fcmp':
            return fcmp(i.x[0], val(R, i.args[0], mod), val(R, i.args[1], mod))
        if op == 'select':
            return val(R, i.args[1], mod) if val(R, i.args[0], mod) else val(R, i.args[2], mod)
        if op == 'call':
            return self.callop(mod, i, R)
        if op == 'sext':
            v = val(R, i.args[0], mod)
            return -v if i.x == 'i1' else v
        if op == 'zext':
            v = val(R, i.args[0], mod)
            return v % (1 << bits(i.x))
        if op == 'trunc':
            v = val(R, i.args[0], mod)
            n = bits(i.ty)
            return (v & 1) if n == 1 else wrap(v, n)
        if op in ('sitofp',):
            return float(val(R, i.args[0], mod))
        if op == 'uitofp':
            v = val(R, i.args[0], mod)
            return float(v % (1 << bits(i.x)))
        if op in ('fptosi', 'fptoui'):
            return wrap(toint(val(R, i.args[0], mod)), bits(i.ty))
        if op == 'ptrtoint':
            o, off = val(R, i.args[0], mod)
            return (0 if o is NULL else (id(o) % (1 << 40)) * 64) + off
        if op == 'alloca':
            n = val(R, i.args[0], mod)
            o = Obj('A:' + i.res, mod.sizeof(i.ty) * n, 'stack')
            self.objmap[o.name] = o
            return (o, 0)
        if op == 'extractvalue':
            v = val(R, i.args[0], mod)
            return v[i.x[0]]
        if op == 'insertvalue':
            v = list(val(R, i.args[0], mod))
            v[i.x[0]] = val(R, i.args[1], mod)
            return v
        if op == 'landingpad':
            return [NULLP, 1]
        if op == 'freeze':
            return val(R, i.args[0], mod)
        raise ir.IRError('interp op ' + op)

    def icmp(self, p, ty, a, b):
        if ty == 'ptr':
            if p == 'eq':
                return int(a[0] is b[0] and a[1] == b[1])
            if p == 'ne':
                return int(not (a[0] is b[0] and a[1] == b[1]))
            a, b = a[1], b[1]
        elif p[0] == 'u':
            n = 1 << bits(ty)
            a, b = a % n, b % n
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])

    def callop(self, mod, i, R):
        c = i.x['callee']
        if c[0] == '%':
            raise ir.IRError('indirect call')
        c = c[1:]
        a = [self.val(R, v, mod) for v in i.args]
        if c.startswith('llvm.'):
            b = c.split('.')[1]
            if b == 'fmuladd' or b == 'fma':
                return a[0] * a[1] + a[2]
            if b in MATH1:
                return MATH1[b](a[0])
            if b == 'pow':
                return fpow(a[0], a[1])
            if b == 'maxnum':
                return a[1] if a[0] != a[0] else (a[0] if a[1] != a[1] else max(a[0], a[1]))
            if b == 'minnum':
                return a[1] if a[0] != a[0] else (a[0] if a[1] != a[1] else min(a[0], a[1]))
            if b == 'copysign':
                return math.copysign(a[0], a[1])
            if b == 'abs':
                return abs(a[0])
            if b in ('smax', 'smin'):
                return (max if b == 'smax' else min)(a[0], a[1])
            if b == 'memset':
                o, off = a[0]
                n = a[2]
                if n and (off < 0 or off + n > o.size):
                    raise Trap('memset oob')
                if a[1] == 0:
                    for k in [k for k in o.m if off <= k < off + n]:
                        del o.m[k]
                    if off == 0 and n == o.size:
                        o.zero = True
                return None
            if b in ('memcpy', 'memmove'):
                (d, do), (s, so), n = a[0], a[1], a[2]
                if n and (do < 0 or do + n > d.size or so < 0 or so + n > s.size):
                    raise Trap('memcpy oob')
                items = [(k - so + do, v) for k, v in s.m.items() if so <= k < so + n]
                for k in [k for k in d.m if do <= k < do + n]:
                    del d.m[k]
                d.m.update(items)
                return None
            if b == 'umul':
                return [wrap(a[0] * a[1], 64), int(a[0] * a[1] >= 1 << 64)]
            if b == 'ctlz':
                return 64 - (a[0] % (1 << 64)).bit_length()
            if b == 'eh':
                return 1
            return None
        if c in ('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            return (self.mk('H:' + i.res, a[0]), 0)
        if c == 'calloc':
            return (self.mk('H:' + i.res, a[0] * a[1]), 0)
        if c == 'realloc':
            o = self.mk('H:' + i.res, a[1])
            if a[0][0] is not NULL:
                o.m = {k: v for k, v in a[0][0].m.items() if k < a[1]}
                a[0][0].freed = True
            return (o, 0)
        if c in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvRKSt9nothrow_t', '_ZdlPvm', '_ZdaPvm'):
            if a[0][0] is not NULL:
                if a[0][0].freed:
                    raise Trap('double free')
                a[0][0].freed = True
            return None
        if c in MATH1:
            return MATH1[c](a[0])
        if c == 'pow':
            return fpow(a[0], a[1])
        if c in ('fmax', 'fmin'):
            if a[0] != a[0]:
                return a[1]
            if a[1] != a[1]:
                return a[0]
            return max(a) if c == 'fmax' else min(a)
        if c == 'atan2':
            return math.atan2(a[0], a[1])
        if c == '__assert_fail':
            raise Trap('assert')
        if c in ('__cxa_begin_catch',):
            return NULLP
        if c == '__cxa_end_catch':
            return None
        if c.startswith('_ZSt') and 'throw' in c:
            raise CppThrow()
        m, f = self.find(c)
        if f is not None:
            return self.run(m, f, a)
        raise ir.IRError('interp call ' + c)
