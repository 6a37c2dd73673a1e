"""P13: calls are independent.

Frame obligations, per function: every write goes to the outputs, to memory the
call allocated, to its stack or to its own stream object (never to inputs,
options, the pointer tables or any global); for a stream, the pointers kept in
the object point into memory only this object owns.

Module obligations, per translation unit: no instruction outside the static
initialisers writes a global or lets its address escape, and every external
function called keeps no state of its own that results could depend on."""
import re, time
import ir, verify, solve, stream
from terms import *
from execu import *

KINDS = {'frame-write', 'wild-pointer', 'pointer-stays-in-object', 'state-not-freed', 'index-unchanged'}
only = lambda o: o.kind in KINDS

STATELESS = re.compile(r'''^(__assert_fail|_Zn[wa]m(RKSt9nothrow_t)?|_Zd[la]Pv(m|RKSt9nothrow_t)?|free|malloc|calloc|realloc|__cxa_(begin_catch|end_catch|rethrow|
    |allocate_exception|throw|free_exception)|_ZSt\d+__throw_\w+|_ZSt9terminatev|__clang_call_terminate|llvm\..*|
    |(sqrt|pow|log|log10|log2|exp|cos|sin|tan|acos|asin|atan|atan2|cosh|sinh|tanh|fabs|fmax|fmin|floor|ceil|trunc|round|fmod|cbrt|hypot|exp2|expm1|log1p)|
    |memcpy|memmove|memset|memcmp|strcmp|strlen|_ZSt\d+_Rb_tree_\w+|_ZNSt9bad_allocD\w+|_ZNSt9exceptionD\w+|_ZNSt20bad_array_new_lengthD\w+|__gxx_personality_v0)$'''.replace('\n    |', ''))


def functions(text):
    for m in re.finditer(r'^define [^\n]*?@("[^"]+"|[\w.$]+)\([^\n]*\{\n(.*?)^\}', text, re.M | re.S):
        yield m.group(1).strip('"'), m.group(2)


def module_obligations(text):
    """[(kind, function, what, holds)]"""
    out = []
    mutable = []
    for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = ([^\n]*)', text, re.M):
        d = m.group(2)
        if re.search(r'\bconstant\b', d) or m.group(1).startswith('llvm.') or m.group(1) == '_ZSt7nothrow' or re.match(r'(external )?(hidden )?alias', d):
            continue
        mutable.append(m.group(1))
    defined = {n for n, _ in functions(text)}
    for fn, body in functions(text):
        if fn.startswith(('_GLOBAL__sub_I_', '__cxx_global_var_init')):
            continue
        lines = body.split('\n')
        for g in mutable:
            pat = re.compile(r'@%s(?![\w.$])' % re.escape(g))
            uses = [l.strip() for l in lines if pat.search(l)]
            for u in uses:
                out.append(('no-global-write', fn, g, readonly(u, '@' + g, lines)))
        for c in set(re.findall(r'(?:call|invoke) [^\n]*?@("[^"]+"|[\w.$]+)\(', body)):
            c = c.strip('"')
            ok = c in defined or c.startswith('ti_') or bool(STATELESS.match(c))
            out.append(('stateless-callee', fn, c, ok))
    return out


def readonly(line, name, lines, depth=0):
    """the use of the address `name` in this instruction only reads"""
    if re.match(r'%\S+ = load ', line):
        return True
    if re.match(r'(%\S+ = )?(tail )?call void @llvm\.mem(cpy|move)', line):
        a = [x for x in re.findall(r'ptr[^,]*', line)]
        return bool(a) and name not in a[0]
    m = re.match(r'(%\S+) = (getelementptr|bitcast|phi|select)', line)
    if m and depth < 8:
        r = m.group(1)
        pat = re.compile(re.escape(r) + r'(?![\w.$])')
        us = [l.strip() for l in lines if pat.search(l) and l.strip() != line]
        return all(readonly(u, r, lines, depth + 1) for u in us)
    if re.match(r'(%\S+ = (icmp|ptrtoint)|ret ptr) ', line):
        return True
    return False


def prove_module(lib, stem, path=None):
    r = verify.Result(stem)
    r.vacuous = False
    text = open(lib.compile(stem, path)).read()
    r.kinds = {}
    for kind, fn, what, ok in module_obligations(text):
        r.total += 1
        r.kinds[kind] = r.kinds.get(kind, 0) + 1
        if ok:
            r.done += 1
        else:
            o = Obligation(kind, True, False, '%s: %s' % (fn, what))
            o.status = 'failed'
            r.fails.append((o, None))
    if not r.total:
        r.total = r.done = 1
        r.kinds['no-global-write'] = 1
    return r


def prove_batch(lib, fname, sp):
    r = verify.Result(fname)
    r.vacuous = False
    mod, fn = lib.find(fname)
    mods = verify.load_callees(lib, mod, fn)
    plan, ex = verify.plan_loop(lambda pl: verify._mk(lib, mods, mod, fn, sp, pl, None, None))
    ex.env.post(ex)
    r.total, r.done, r.fails, s = solve.discharge(ex, 3000, only=only)
    r.kinds = verify.kinds_of(ex, only)
    return r


def prove_stream(lib, name):
    r = verify.Result('ti_%s_stream' % name)
    r.vacuous = False
    p = stream.StreamProof(lib, name, nruns=0, only=only)
    plan, ex = verify.plan_loop(p.mk_new)
    ex.env.post(ex)
    p.nx, p.sh = ex, ex.env.shape
    p.judge(r, ex, 'new', 0)
    if p.sh.main is None:
        r.undecided = 'shape of the stream object not understood'
        return r
    plan, ex, mut = p.mutable_cells()
    p.mut = mut
    ex = p.mk_obj('run', plan, mut, [])
    ex.run()
    ex.env.post(ex)
    p.judge(r, ex, 'run', 0)
    plan, ex = verify.plan_loop(lambda q: p.mk_obj('free', q, mut, []))
    ex.env.post(ex)
    p.judge(r, ex, 'free', 0)
    return r
