"""Builds the IR of /repo's current sources in a scratch directory and gives
access to modules, registry metadata and contracts."""
import threading, os, re, subprocess, shutil, tempfile, sys, hashlib
import ir
from batch import Spec

CLANG = 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
PASSES = ('always-inline,function(sroa,early-cse,simplifycfg),cgscc(inline),'
          'function(sroa,early-cse<memssa>,instsimplify,simplifycfg,'
          'loop-unroll<O2;no-partial;no-peeling;no-runtime;upperbound;no-profile-peeling;full-unroll-max=9>,'
          'sroa,instsimplify,simplifycfg,dce,loop-simplify),globaldce')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class BuildError(Exception):
    pass


class Lib:
    def __init__(self, repo='/repo', work=None):
        self.repo = repo
        self.work = work or tempfile.mkdtemp(prefix='tiv.')
        self.src = os.path.join(self.work, 'src')
        self.ll = os.path.join(self.work, 'll')
        self.mods = {}
        self.specs = {}
        self.prepared = False

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def prepare(self):
        """copy tracked + untracked sources (not .git) and generate the
        registry files with the repository's own generator"""
        if self.prepared:
            return
        os.makedirs(self.src, exist_ok=True)
        os.makedirs(self.ll, exist_ok=True)
        for d in ('indicators', 'utils', 'templates', 'bindings'):
            p = os.path.join(self.repo, d)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(self.src, d), symlinks=True, dirs_exist_ok=True)
        for f in os.listdir(self.repo):
            p = os.path.join(self.repo, f)
            if os.path.isfile(p) and f not in ('indicators.h', 'indicators_index.c') and not f.endswith(('.a', '.o', '.so')):
                shutil.copy2(p, self.src)
        py = None
        for c in ('python3-vt', '/opt/vp/venv/bin/python', 'python3'):
            if sh(['sh', '-c', '%s -c "import yaml, jinja2" 2>/dev/null || %s -c "import yaml"' % (c, c)]).returncode == 0:
                py = c
                break
        r = sh([py or 'python3', 'codegen.py'], cwd=self.src)
        if r.returncode != 0 or not os.path.exists(os.path.join(self.src, 'indicators.h')):
            raise BuildError('codegen.py failed: ' + r.stderr[-500:])
        import yaml
        y = yaml.safe_load(open(os.path.join(self.src, 'indicators.yaml')))
        self.yaml = y
        for name, row in y.items():
            full, typ, ins, opts, outs, feats = row[:6]
            self.specs[name] = Spec(name, len(ins or []), len(opts or []), len(outs or []), tuple(feats or ()))
            self.specs[name].row = row
            self.specs[name].optnames = list(opts or [])
        self.prepared = True

    def spec(self, name):
        return self.specs[name]

    def sources(self):
        return sorted(f[:-3] for f in os.listdir(os.path.join(self.src, 'indicators')) if f.endswith('.cc'))

    def compile(self, stem, path=None, flags=()):
        out = os.path.join(self.ll, stem + '.ll')
        if os.path.exists(out):
            return out
        path = path or os.path.join(self.src, 'indicators', stem + '.cc')
        o0 = os.path.join(self.ll, '%s.%d.%d.0.ll' % (stem, os.getpid(), threading.get_ident()))
        lang = ['-std=c++17'] if path.endswith('.cc') else ['-x', 'c', '-std=c11']
        r = sh([CLANG if path.endswith('.cc') else 'clang'] + lang + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w', '-S', *flags,
                '-emit-llvm', path, '-o', o0], cwd=self.src)
        if r.returncode != 0:
            raise BuildError('clang %s: %s' % (stem, r.stderr[-800:]))
        if path.endswith('.cc') and re.search(r'@ti_buffer_(new|free)\b', open(o0).read()):
            r = sh(['/usr/lib/llvm-18/bin/llvm-link', '-S', o0, self.compile('buffer', os.path.join(self.src, 'utils', 'buffer.c')), '-o', o0])
            if r.returncode != 0:
                raise BuildError('llvm-link: ' + r.stderr[-500:])
        t = open(o0).read()
        t = re.sub(r'\boptnone\b', '', t)
        t = re.sub(r'\bnoinline\b', '', t)
        open(o0, 'w').write(t)
        r = sh([OPT, '-S', '-inline-threshold=100000', '-unroll-threshold=3000', '-passes=' + PASSES, o0, '-o', o0 + '.tmp'])
        if r.returncode != 0:
            raise BuildError('opt %s: %s' % (stem, r.stderr[-800:]))
        os.remove(o0)
        os.rename(o0 + '.tmp', out)
        return out

    def build_all(self, jobs=8):
        from concurrent.futures import ThreadPoolExecutor
        self.prepare()
        errs = {}
        self.compile('buffer', os.path.join(self.src, 'utils', 'buffer.c'))

        def one(s):
            try:
                self.compile(s)
            except BuildError as e:
                errs[s] = str(e)
        with ThreadPoolExecutor(jobs) as p:
            list(p.map(one, self.sources()))
        return errs

    ONCE = """#include "../indicators/%(x)s.cc"
extern "C" int ti_%(x)s_once(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
    ti_stream *stream = 0;
    int r = ti_%(x)s_stream_new(options, &stream);
    if (r != TI_OKAY) { return r; }
    r = ti_%(x)s_stream_run(stream, size, inputs, outputs);
    ti_%(x)s_stream_free(stream);
    return r;
}
"""

    def once(self, stem):
        """the indicator's own source with one more function: a whole series fed to a new stream"""
        d = os.path.join(self.src, 'once')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, stem + '.cc')
        if not os.path.exists(p):
            open(p + '.%d' % os.getpid(), 'w').write(self.ONCE % dict(x=stem))
            os.rename(p + '.%d' % os.getpid(), p)
        return self.compile(stem + '.once', p)

    def module(self, stem):
        if stem not in self.mods:
            m = ir.parse(open(self.once(stem[:-5]) if stem.endswith('.once') else self.compile(stem)).read())
            m.stem = stem
            self.mods[stem] = m
        return self.mods[stem]

    # which source file defines a function
    def index(self):
        if not hasattr(self, '_idx'):
            self._idx = {}
            for s in self.sources():
                txt = open(os.path.join(self.src, 'indicators', s + '.cc')).read()
                for m in re.finditer(r'\b(ti_\w+)\s*\(', txt):
                    self._idx.setdefault(m.group(1), []).append(s)
        return self._idx

    def stem_of(self, fname):
        n = fname[3:]
        if n.endswith('_once'):
            return n[:-5] + '.once'
        for suf in ('_stream_new', '_stream_run', '_stream_free', '_start', '_ref'):
            if n.endswith(suf) and n[:-len(suf)] in self.specs:
                n = n[:-len(suf)]
                break
        if n in self.specs and os.path.exists(os.path.join(self.src, 'indicators', n + '.cc')):
            return n
        c = [s for s in self.index().get(fname, []) if fname in self.module(s).funcs]
        return c[0] if c else None

    def find(self, fname):
        s = self.stem_of(fname)
        if s is None:
            return None, None
        m = self.module(s)
        return m, m.funcs.get(fname)

    def modules_for(self, fname, mods):
        for m in mods:
            if fname in m.funcs:
                return [m]
        m, f = self.find(fname)
        return [m] if f is not None else []

    def match_call(self, c):
        if not c.startswith('ti_'):
            return None
        n = c[3:]
        if n in self.specs:
            return n, 'batch'
        for suf, k in (('_start', 'start'), ('_ref', 'ref'), ('_stream_new', 'new'), ('_stream_run', 'run'), ('_stream_free', 'free')):
            if n.endswith(suf) and n[:-len(suf)] in self.specs:
                return n[:-len(suf)], k
        return None
