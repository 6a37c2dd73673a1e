"""Parser for the subset of textual LLVM-18 IR produced from /repo's sources.

Everything that is not understood raises IRError; callers turn that into an
"undecided" verdict, never into a silent acceptance."""
import re, struct
from functools import lru_cache


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# types are strings for scalars ('i32','double','ptr','void') or tuples
#   ('arr', n, T) ('struct', name) ('lit', (T,...))

class Module:
    def __init__(self):
        self.structs = {}     # name -> tuple of types | None (opaque)
        self.globals = {}     # name -> (type, init-text or None, is_const)
        self.funcs = {}       # name -> Function
        self.decls = set()

    def sizeof(self, t):
        return self._layout(t)[0]

    def alignof(self, t):
        return self._layout(t)[1]

    def _layout(self, t):
        c = self.__dict__.setdefault('_lc', {})
        if t in c:
            return c[t]
        r = self._layout0(t)
        c[t] = r
        return r

    def _layout0(self, t):
        if isinstance(t, str):
            if t == 'ptr' or t == 'double':
                return (8, 8)
            if t == 'float':
                return (4, 4)
            if t[0] == 'i':
                n = int(t[1:])
                s = max(1, (n + 7) // 8)
                p = 1
                while p < s:
                    p *= 2
                return (p, min(p, 16))
            raise IRError('layout of %r' % (t,))
        if t[0] == 'arr':
            s, a = self._layout(t[2])
            return (s * t[1], a)
        offs, size, al = self.fields(t)
        return (size, al)

    def fields(self, t):
        """offsets of the fields of a struct type"""
        c = self.__dict__.setdefault('_fc', {})
        if t in c:
            return c[t]
        el = self.elems(t)
        off, al, offs = 0, 1, []
        packed = t[0] == 'struct' and self.packed.get(t[1], False)
        for e in el:
            s, a = self._layout(e)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        size = (off + al - 1) // al * al
        c[t] = (offs, size, al)
        return c[t]

    def elems(self, t):
        if t[0] == 'lit':
            return t[1]
        el = self.structs.get(t[1])
        if el is None:
            raise IRError('opaque struct %s' % t[1])
        return el

    packed = {}


class Function:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}      # name -> Block (ordered)
        self.order = []
        self.text = []


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line')

    def __init__(self, op, res, ty, args, x=None, line=''):
        self.op, self.res, self.ty, self.args, self.x, self.line = op, res, ty, args, x, line

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.args, self.x)


class Tok:
    RX = re.compile(r'''\s*(
        %"[^"]*"|@"[^"]*"|[%@][-\w.$]+ | c"(?:[^"])*" | "[^"]*" |
        0x[KLMH]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:[eE][-+]?\d+)? | -?\d+ |
        [A-Za-z_][\w.]* | \.\.\. | \#\d+ | ![\w.]* | [()\[\]{}<>,=*:|] )''', re.X)

    def __init__(self, s):
        self.s, self.i = s, 0
        self.toks = []
        p = 0
        n = len(s)
        while p < n:
            if s[p] == ';':
                break
            m = self.RX.match(s, p)
            if not m:
                if s[p:].strip() == '' or s[p:].lstrip().startswith(';'):
                    break
                raise IRError('lex: %r' % s[p:p + 40])
            self.toks.append(m.group(1))
            p = m.end()

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise IRError('eol in %r' % self.s)
        self.i += 1
        return t

    def accept(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def expect(self, t):
        g = self.next()
        if g != t:
            raise IRError('expected %r got %r in %r' % (t, g, self.s))


ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
         'readnone', 'returned', 'immarg', 'nofree', 'noreturn', 'nounwind', 'swiftself', 'allocptr', 'nneg',
         'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'linkonce_odr', 'internal', 'weak', 'weak_odr',
         'private', 'external', 'available_externally', 'comdat', 'protected', 'mustprogress', 'fastcc', 'ccc',
         'allocsize', 'exact', 'disjoint', 'writable', 'dead_on_unwind', 'constant', 'global', 'thread_local'}


def unq(n):
    if n[1:2] == '"':
        return n[0] + n[2:-1]
    return n


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.m.packed = {}
        self.text = text
        self.parse()

    # ---- types
    def type(self, t):
        x = t.next()
        if x == '[':
            n = int(t.next())
            t.expect('x')
            e = self.type(t)
            t.expect(']')
            r = ('arr', n, e)
        elif x == '{':
            el = []
            while not t.accept('}'):
                el.append(self.type(t))
                t.accept(',')
            r = ('lit', tuple(el))
        elif x == '<':
            if t.peek() == '{':
                r = self.type(t)
                t.expect('>')
            else:
                raise IRError('vector type')
        elif x[0] == '%':
            r = ('struct', unq(x)[1:])
        else:
            r = x
        if t.peek() == '(' and r in ('void', 'i32', 'ptr', 'double', 'i64', 'i1') and getattr(self, '_fty', False):
            d = 0
            while True:
                y = t.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
        return r

    def attrs(self, t):
        while True:
            p = t.peek()
            if p in ATTRS:
                t.next()
                if t.peek() == '(':
                    self.parens(t)
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'range'):
                t.next()
                if t.peek() == '(':
                    self.parens(t)
                elif re.fullmatch(r'\d+', t.peek() or ''):
                    t.next()
            else:
                return

    def parens(self, t):
        t.expect('(')
        d = 1
        while d:
            x = t.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # ---- values
    def value(self, t, ty):
        x = t.next()
        if x[0] == '%':
            return ('r', unq(x)[1:])
        if x[0] == '@':
            return ('g', unq(x)[1:])
        if x in ('true', 'false'):
            return ('i', 1 if x == 'true' else 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if x == 'getelementptr':
            t.accept('inbounds')
            t.expect('(')
            sty = self.type(t)
            t.expect(',')
            pt = self.type(t)
            base = self.value(t, pt)
            idx = []
            while t.accept(','):
                it = self.type(t)
                idx.append((it, self.value(t, it)))
            t.expect(')')
            return ('cgep', sty, base, tuple(idx))
        if x[:2] == '0x':
            if ty == 'double':
                return ('f', struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0])
            raise IRError('hex const %s' % x)
        if re.fullmatch(r'-?\d+', x):
            return ('i', int(x))
        if re.match(r'-?\d+\.\d+', x):
            return ('f', float(x))
        if x == '<' and t.peek() == '{':
            v = self.value(t, ty)
            t.expect('>')
            return v
        if x == '[' or x == '{':
            close = ']' if x == '[' else '}'
            vals = []
            while not t.accept(close):
                et = self.type(t)
                vals.append(self.value(t, et))
                t.accept(',')
            return ('agg', tuple(vals))
        if x[:2] == 'c"':
            return ('str', x)
        raise IRError('value %r in %r' % (x, t.s))

    def tv(self, t):
        ty = self.type(t)
        self.attrs(t)
        return ty, self.value(t, ty)

    def parse(self):
        m = self.m
        lines = self.text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l or l[0] in ';!' or l.startswith(('source_filename', 'target', 'attributes', 'module asm', '$')):
                continue
            if l[0] == '%':
                name, rest = l.split(' = type ', 1)
                t = Tok(rest)
                if t.peek() == 'opaque':
                    m.structs[unq(name)[1:]] = None
                else:
                    pk = t.peek() == '<'
                    ty = self.type(t)
                    m.structs[unq(name)[1:]] = ty[1]
                    m.packed[unq(name)[1:]] = pk
                continue
            if l[0] == '@':
                name, rest = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l).groups()
                isconst = bool(re.search(r'\bconstant\b', rest.split('[')[0].split('{')[0]))
                ext = bool(re.match(r'external\b', rest))
                mm = re.search(r'\b(constant|global)\b (.*)', rest)
                if not mm:
                    m.globals[unq(name)[1:]] = (None, None, isconst)
                    continue
                try:
                    t = Tok(re.sub(r', (align|comdat|section).*$', '', mm.group(2)))
                    ty = self.type(t)
                    init = None
                    if not ext and t.peek() is not None:
                        init = self.value(t, ty)
                    m.globals[unq(name)[1:]] = (ty, init, isconst)
                except IRError:
                    m.globals[unq(name)[1:]] = (None, None, isconst)
                continue
            if l.startswith('declare'):
                mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                m.decls.add(unq('@' + mm.group(1))[1:])
                continue
            if l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.function(l, lines[i:j])
                i = j + 1
                continue
            raise IRError('toplevel: %r' % l[:80])

    def function(self, head, body):
        mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        name = unq('@' + mm.group(1))[1:]
        pre = head[:mm.start()].replace('define', '')
        t = Tok(pre)
        self.attrs(t)
        ret = self.type(t)
        # parameters
        d, k = 1, mm.end()
        st = k
        while d:
            c = head[k]
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
            k += 1
        ps = head[st:k - 1]
        t = Tok(ps)
        params = []
        n = 0
        while t.peek() is not None:
            if t.accept('...'):
                break
            ty = self.type(t)
            self.attrs(t)
            if t.peek() and t.peek()[0] == '%':
                params.append((ty, unq(t.next())[1:]))
            else:
                params.append((ty, str(n)))
            n += 1
            t.accept(',')
        f = Function(name, ret, params)
        f.head, f.rawbody = head, body
        f.parsed = False
        self.m.funcs[name] = f
        f.parser = self

    def body(self, f):
        if f.parsed:
            return
        f.parsed = True
        # join multi-line instructions (landingpad clauses, invoke to.., switch)
        joined = []
        for l in f.rawbody:
            if not l.strip():
                continue
            s = l.strip()
            if joined and (s.startswith(('to label', 'catch ', 'cleanup', 'filter ')) or joined[-1].count('[') > joined[-1].count(']')):
                joined[-1] += ' ' + s
            else:
                joined.append(l)
        cur = None
        for l in joined:
            mm = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', l)
            if mm:
                nm = mm.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                continue
            if cur is None:
                nm = str(len(f.params))
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
            ins = self.instr(l)
            if ins is not None:
                cur.instrs.append(ins)

    def instr(self, line):
        s = re.sub(r', ![\w.]+ !\d+', '', line.strip())
        s = re.sub(r', !srcloc.*$', '', s)
        t = Tok(s)
        res = None
        if t.peek()[0] == '%' and t.peek(1) == '=':
            res = unq(t.next())[1:]
            t.next()
        op = t.next()
        flags = set()
        while op in ('tail', 'musttail', 'notail'):
            op = t.next()
        I = lambda ty, args, x=None: Instr(op, res, ty, args, x, s)
        if op == 'br':
            if t.accept('label'):
                return I('void', [], [unq(t.next())[1:]])
            t.expect('i1')
            c = self.value(t, 'i1')
            t.expect(','); t.expect('label')
            a = unq(t.next())[1:]
            t.expect(','); t.expect('label')
            b = unq(t.next())[1:]
            return I('void', [c], [a, b])
        if op == 'switch':
            ty, v = self.tv(t)
            t.expect(','); t.expect('label')
            dflt = unq(t.next())[1:]
            t.expect('[')
            cases = []
            while not t.accept(']'):
                ct, cv = self.tv(t)
                t.expect(','); t.expect('label')
                cases.append((cv[1], unq(t.next())[1:]))
            return I(ty, [v], (dflt, cases))
        if op == 'ret':
            if t.peek() == 'void':
                return I('void', [])
            ty, v = self.tv(t)
            return I(ty, [v])
        if op == 'unreachable':
            return I('void', [])
        if op == 'resume':
            ty, v = self.tv(t)
            return I(ty, [v])
        if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'ashr', 'lshr'):
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                flags.add(t.next())
            ty = self.type(t)
            a = self.value(t, ty)
            t.expect(',')
            b = self.value(t, ty)
            return I(ty, [a, b], flags)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                t.next()
            ty = self.type(t)
            a = self.value(t, ty)
            t.expect(',')
            b = self.value(t, ty)
            return I(ty, [a, b])
        if op == 'fneg':
            ty, v = self.tv(t)
            return I(ty, [v])
        if op in ('icmp', 'fcmp'):
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                t.next()
            pred = t.next()
            ty = self.type(t)
            a = self.value(t, ty)
            t.expect(',')
            b = self.value(t, ty)
            return I('i1', [a, b], (pred, ty))
        if op == 'phi':
            ty = self.type(t)
            inc = []
            while True:
                t.expect('[')
                v = self.value(t, ty)
                t.expect(',')
                b = unq(t.next())[1:]
                t.expect(']')
                inc.append((b, v))
                if not t.accept(','):
                    break
            return I(ty, [v for b, v in inc], [b for b, v in inc])
        if op == 'select':
            ct, c = self.tv(t)
            t.expect(',')
            ty, a = self.tv(t)
            t.expect(',')
            ty2, b = self.tv(t)
            return I(ty, [c, a, b])
        if op == 'load':
            t.accept('volatile')
            ty = self.type(t)
            t.expect(',')
            pt, p = self.tv(t)
            return I(ty, [p])
        if op == 'store':
            t.accept('volatile')
            ty, v = self.tv(t)
            t.expect(',')
            pt, p = self.tv(t)
            return I(ty, [v, p])
        if op == 'alloca':
            ty = self.type(t)
            n = ('i', 1)
            if t.accept(','):
                if t.peek() != 'align':
                    nt, n = self.tv(t)
            return I(ty, [n])
        if op == 'getelementptr':
            t.accept('inbounds')
            sty = self.type(t)
            t.expect(',')
            pt, base = self.tv(t)
            idx = []
            while t.accept(','):
                idx.append(self.tv(t))
            return I('ptr', [base] + [v for _, v in idx], (sty, [ty for ty, _ in idx]))
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc'):
            while t.peek() in ('nneg', 'nuw', 'nsw'):
                t.next()
            ty, v = self.tv(t)
            t.expect('to')
            to = self.type(t)
            return I(to, [v], ty)
        if op in ('call', 'invoke'):
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                t.next()
            self.attrs(t)
            self._fty = False
            ty = self.type(t)
            if t.peek() == '(':   # function type
                self.parens(t)
            callee = t.next()
            if callee[0] not in '@%':
                raise IRError('callee %r' % s)
            callee = unq(callee)
            t.expect('(')
            args, tys = [], []
            while not t.accept(')'):
                if t.peek() == 'metadata':
                    t.next(); t.next(); t.accept(',')
                    continue
                at, av = self.tv(t)
                args.append(av); tys.append(at)
                t.accept(',')
            x = {'callee': callee, 'tys': tys}
            if op == 'invoke':
                while t.peek() != 'to':
                    t.next()
                t.expect('to'); t.expect('label')
                x['normal'] = unq(t.next())[1:]
                t.expect('unwind'); t.expect('label')
                x['unwind'] = unq(t.next())[1:]
            return I(ty, args, x)
        if op == 'landingpad':
            ty = self.type(t)
            cl = []
            while t.peek() is not None:
                k = t.next()
                if k == 'cleanup':
                    cl.append(('cleanup',))
                elif k in ('catch',):
                    ct, cv = self.tv(t)
                    cl.append(('catch', cv))
                elif k == 'filter':
                    ct, cv = self.tv(t)
                    cl.append(('filter', cv))
            return I(ty, [], cl)
        if op == 'extractvalue':
            ty, v = self.tv(t)
            idx = []
            while t.accept(','):
                idx.append(int(t.next()))
            return I(('ev', ty, tuple(idx)), [v], idx)
        if op == 'insertvalue':
            ty, v = self.tv(t)
            t.expect(',')
            ety, ev = self.tv(t)
            idx = []
            while t.accept(','):
                idx.append(int(t.next()))
            return I(ty, [v, ev], idx)
        if op == 'freeze':
            ty, v = self.tv(t)
            return I(ty, [v])
        raise IRError('instr %r' % s)


def parse(text):
    return Parser(text).m


# ------------------------------------------------------------------ CFG
class CFG:
    def __init__(self, f):
        f.parser.body(f)
        self.f = f
        self.succ = {}
        for b in f.order:
            t = f.blocks[b].instrs[-1]
            if t.op == 'br':
                s = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s = list(dict.fromkeys([t.x[0]] + [b2 for _, b2 in t.x[1]]))
            elif t.op == 'invoke':
                s = [t.x['normal'], t.x['unwind']]
            else:
                s = []
            self.succ[b] = s
        entry = f.order[0]
        # DFS -> rpo, back edges via dominators
        seen, post = set(), []
        stack = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        num = {b: i for i, b in enumerate(self.rpo)}
        self.num = num
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        self.back = set()
        self.headers = []
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if num[s] <= num[b]:
                    if not self.dominates(s, b):
                        raise IRError('irreducible loop in %s' % f.name)
                    self.back.add((b, s))
                    loops.setdefault(s, set()).add(b)
        self.loop = {}
        for h, latches in loops.items():
            body = {h}
            st = list(latches)
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(self.pred[x])
            self.loop[h] = body
        self.headers = [b for b in self.rpo if b in self.loop]
        self.parent = {}
        for h in self.headers:
            best = None
            for g in self.headers:
                if g != h and h in self.loop[g]:
                    if best is None or len(self.loop[g]) < len(self.loop[best]):
                        best = g
            self.parent[h] = best
        # the order again, with the body of a loop before what follows it
        common = lambda b, x: sum(1 for l in self.loop.values() if b in l and x in l)
        seen, post = {entry}, []
        stack = [(entry, iter(sorted(self.succ[entry], key=lambda x: common(entry, x))))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(sorted(self.succ[s], key=lambda x, s=s: common(s, x)))))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.headers = [b for b in self.rpo if b in self.loop]
        # topological order respecting acyclic graph: rpo ignoring back edges
        self.topo = self.rpo

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            p = self.idom[b]
            if p == b:
                return False
            b = p
