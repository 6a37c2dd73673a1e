"""Concrete execution of the real functions (sanitized native build): used to
turn a failed obligation into a failing input, and as the bounded stand-in for
functions the verifier does not accept."""
import os, struct, subprocess, random, time, math, json, threading
from traces import make_inputs, option_samples

HERE = os.path.dirname(os.path.abspath(__file__))
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,float-divide-by-zero', '-fno-sanitize-recover=all']
SENT = struct.pack('<Q', 0x7ff8dead0000beef)
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:detect_odr_violation=0:max_allocation_size_mb=3000',
       'UBSAN_OPTIONS': 'print_stacktrace=0', 'PATH': os.environ.get('PATH', '')}


class Crash(Exception):
    pass


class NativeError(Exception):
    pass


class Native:
    """builds the driver and one shared object per indicator"""
    def __init__(self, lib, extra=()):
        self.lib = lib
        self.dir = os.path.join(lib.work, 'native')
        os.makedirs(self.dir, exist_ok=True)
        self.extra = list(extra)
        self.lock = threading.Lock()

    def sh(self, a):
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.lib.src)
        if r.returncode:
            raise NativeError(' '.join(a[:3]) + ': ' + r.stderr[-600:])

    def driver(self):
        p = os.path.join(self.dir, 'driver')
        if not os.path.exists(p):
            q = p + '.%d' % os.getpid()
            self.sh(['clang++', '-std=c++17', '-O1', '-g0'] + SAN + ['-fno-sanitize=nonnull-attribute,pointer-overflow', '-rdynamic', os.path.join(HERE, '..', 'native', 'driver.cc'), '-o', q, '-ldl'])
            os.rename(q, p)
        return p

    def closure(self, stem):
        """source files needed by one indicator"""
        need, work = [], [stem]
        idx = self.lib.index()
        import re
        while work:
            s = work.pop()
            if s in need:
                continue
            need.append(s)
            t = open(os.path.join(self.lib.src, 'indicators', s + '.cc')).read()
            for m in re.finditer(r'\bti_(\w+)\s*\(', t):
                n = m.group(1)
                for suf in ('_stream_new', '_stream_run', '_stream_free', '_start', '_ref', ''):
                    if suf and not n.endswith(suf):
                        continue
                    b = n[:-len(suf)] if suf else n
                    if b in self.lib.specs and os.path.exists(os.path.join(self.lib.src, 'indicators', b + '.cc')):
                        if b not in need:
                            work.append(b)
                        break
        return need

    def so(self, stem, name=None):
        p = os.path.join(self.dir, stem + '.so')
        if os.path.exists(p):
            return p
        q = p + '.%d.%d' % (os.getpid(), threading.get_ident())
        srcs = [os.path.join(self.lib.src, 'indicators', s + '.cc') for s in self.closure(stem)]
        self.sh(['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fPIC', '-shared', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'] + SAN +
                srcs + ['-x', 'c++', '-DTI_BUFFER_C', os.path.join(self.lib.src, 'utils', 'buffer.c'), '-o', q])
        os.rename(q, p)
        return p


class Runner:
    def __init__(self, nat, name):
        self.nat, self.name = nat, name
        self.sp = nat.lib.spec(name)
        self.proc = None
        self.n = 0

    def close(self):
        if self.proc:
            try:
                self.proc.stdin.close()
                self.proc.kill()
                self.proc.wait()
                self.proc.stdout.close()
                self.err.close()
            except OSError:
                pass
            self.proc = None

    def up(self):
        if self.proc:
            return
        import tempfile
        self.err = tempfile.TemporaryFile()
        stem = self.nat.lib.stem_of('ti_' + self.name)
        so = self.nat.so(stem)
        self.proc = subprocess.Popen([self.nat.driver()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, bufsize=1 << 16)
        p, n = so.encode(), self.name.encode()
        self.proc.stdin.write(struct.pack('<ii', ord('L'), len(p)) + p + struct.pack('<i', len(n)) + n)
        self.proc.stdin.flush()
        self.have = self.i()
        if self.have < 0:
            raise NativeError('dlopen ' + so)

    def rd(self, n):
        b = self.proc.stdout.read(n)
        if len(b) < n:
            rc = self.proc.wait()
            self.err.seek(0)
            e = self.err.read().decode('utf8', 'replace')
            self.close()
            msg = [l for l in e.splitlines() if 'ERROR' in l or 'runtime error' in l]
            fr = [l.strip() for l in e.splitlines() if '/indicators/' in l][:1]
            raise Crash((' '.join(msg[:1] + fr) or ('exit %s %s' % (rc, 'timeout' if rc == -14 else e[-200:])))[:400])
        return b

    def i(self):
        return struct.unpack('<i', self.rd(4))[0]

    def send(self, b):
        try:
            self.proc.stdin.write(b)
            self.proc.stdin.flush()
        except BrokenPipeError:
            pass

    def mode(self, fill=0xA5, noise=0):
        """contents of fresh memory; whether unrelated calls run in between"""
        self.up()
        self.send(struct.pack('<iii', ord('F'), fill, noise))

    def batch(self, opts, ins, ref=False, failat=-1):
        self.up()
        self.n += 1
        size = len(ins[0]) if ins else 0
        sp = self.sp
        b = struct.pack('<iiiiii', ord('R' if ref else 'B'), size, sp.nin, sp.nopt, sp.nout, failat)
        b += struct.pack('<%dd' % sp.nopt, *opts)
        for s in ins:
            b += struct.pack('<%dd' % size, *s)
        self.send(b)
        rc, start, n, nalloc, live, refused, exc = struct.unpack('<7i', self.rd(28))
        outs = [self.rd(8 * n) for _ in range(sp.nout)]
        return dict(rc=rc, start=start, n=n, nalloc=nalloc, live=live, refused=refused, exc=exc & 1, changed=exc >> 1, outs=outs)

    def stream(self, opts, ins, chunks, failat=-1):
        self.up()
        self.n += 1
        size = len(ins[0]) if ins else 0
        sp = self.sp
        assert sum(chunks) == size
        b = struct.pack('<7i', ord('S'), size, sp.nin, sp.nopt, sp.nout, failat, len(chunks)) + struct.pack('<%di' % len(chunks), *chunks)
        b += struct.pack('<%dd' % sp.nopt, *opts)
        for s in ins:
            b += struct.pack('<%dd' % size, *s)
        self.send(b)
        rc, start, exc = struct.unpack('<3i', self.rd(12))
        d = dict(rc=rc, start=start, exc=exc, runs=[], outs=[b''] * sp.nout, changed=0)
        if rc == 0 and not exc:
            d['progress0'] = self.i()
            d['index'] = self.i()
            for c in chunks:
                r, x, prog, n = struct.unpack('<4i', self.rd(16))
                o = [self.rd(8 * n) for _ in range(sp.nout)]
                d['outs'] = [a + b for a, b in zip(d['outs'], o)]
                d['runs'].append((c, r, x & 1, prog, n))
                d['changed'] |= x >> 1
                if r != 0 or x & 1:
                    break
        d['nalloc'], d['live'], d['refused'] = struct.unpack('<3i', self.rd(12))
        return d


def doubles(b):
    return struct.unpack('<%dd' % (len(b) // 8), b)


def unwritten(b):
    return [k for k in range(len(b) // 8) if b[8 * k:8 * k + 8] == SENT]


def close(a, b, tol=1e-6, scale=1.0):
    if a != a or b != b:
        return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b or (math.isinf(a) and math.isinf(b) and (a > 0) == (b > 0))
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)


# ---- case generation ---------------------------------------------------------
def gen_options(rng, sp, edge):
    o = option_samples(rng, sp)
    if edge:
        for k in range(len(o)):
            r = rng.random()
            nm = str(sp.optnames[k])
            per = 'period' in nm or 'roc' in nm
            if r < .25:
                o[k] = float(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))
            elif r < .35:
                o[k] = float(rng.choice([-1, -2, -3, 0, 0.5, -0.5]))
            elif r < .5 and per:
                o[k] = rng.randint(0, 12) + rng.choice([.25, .5, .75, .999])
            elif r < .6 and per:
                o[k] = float(rng.choice([13, 16, 17, 24, 26, 31, 32, 33, 50, 64, 65, 100, 128, 200]))
            elif r < .7 and not per:
                o[k] = rng.choice([0.0, 1.0, 2.0, 1.5, 0.01, 0.99, 100.0, 3.0, -1.0])
    return o


def start_guess(o):
    return int(min(400, max([0] + [abs(x) for x in o if abs(x) < 1e4])))


def gen_size(rng, start, big):
    r = rng.random()
    s = max(0, min(start, 3000))
    if r < .35:
        return max(0, s + rng.choice([-2, -1, 0, 1, 1, 2, 3]))
    if r < .5:
        return rng.choice([0, 1, 2, 3, 4, 5])
    if r < .93 or not big:
        return s + rng.randint(1, 40)
    return s + rng.choice([100, 255, 256, 257, 500, 1024, 1100])


def gen_inputs(rng, sp, n, weird=False):
    ins = make_inputs(rng, sp, n)
    r = rng.random()
    if weird and n and r < .2:
        for _ in range(rng.randint(1, 3)):
            k, j = rng.randrange(len(ins)), rng.randrange(n)
            ins[k][j] = rng.choice([0.0, -1.0, 1e300, -1e300, 1e-300, float('nan'), float('inf'), 5e-324])
    elif weird and n and r < .35:
        k = rng.choice([0.0, 1e6, 1e-6, -3.0])
        ins = [[x * k for x in s] for s in ins]
    elif weird and r < .45:
        ins = [[float(rng.randint(-3, 3)) for _ in s] for s in ins]
    return ins


def pieces(rng, n):
    """a chunking of n bars"""
    if n == 0:
        return rng.choice([[], [0], [0, 0]])
    r = rng.random()
    if r < .2:
        return [1] * n
    if r < .3:
        return [n]
    out, left = [], n
    while left:
        c = min(left, rng.choice([0, 1, 1, 2, 3, 5, 8, 13, left]))
        out.append(c)
        left -= c
    if rng.random() < .2:
        out.append(0)
    return out
