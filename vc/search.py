"""Search for a concrete input that breaks a property (the oracles are the
property statements themselves, on the real functions)."""
import random, time, math
import native
from native import Crash, Runner, gen_options, gen_inputs, gen_size, start_guess, pieces, doubles, unwritten, close

MEMO = ('heap-buffer-overflow', 'use-after-free', 'SEGV')


def case(name, kind, opts, ins, **kw):
    return dict(name=name, kind=kind, options=list(opts), inputs=[list(x) for x in ins], **kw)


def run_batch(r, c):
    return r.batch(c['options'], c['inputs'], ref=c['kind'] == 'ref', failat=c.get('failat', -1))


# each oracle: (runner, case, rng) -> reason or None

def safe_batch(r, c, rng=None):
    try:
        d = run_batch(r, c)
    except Crash as e:
        return 'memory or arithmetic error: ' + str(e)
    if d['changed']:
        return 'the inputs or options were modified'
    return None


def exact_output(r, c, rng=None):
    try:
        d = run_batch(r, c)
    except Crash as e:
        return 'does not terminate' if 'timeout' in str(e) else 'does not return: ' + str(e) if 'ssert' in str(e) else None
    if d['exc']:
        return None
    if d['rc'] not in (0, 1, 2):
        return 'return code %d' % d['rc']
    for k, o in enumerate(d['outs']):
        u = unwritten(o)
        if d['rc'] == 0 and u:
            return 'output %d: element %d of %d was not written (start %d)' % (k, u[0], d['n'], d['start'])
        if d['rc'] != 0 and len(u) != d['n']:
            return 'returned %d but wrote to output %d' % (d['rc'], k)
    return None


def resources_batch(r, c, rng=None):
    try:
        d = run_batch(r, c)
        if d['exc']:
            return 'an exception escaped'
        if d['live'] != 0 and not d['refused']:
            return '%d allocations not released (return code %d)' % (d['live'], d['rc'])
        for k in range(min(d['nalloc'], 12)):
            c2 = dict(c, failat=k)
            e = run_batch(r, c2)
            if e['exc']:
                c.update(c2)
                return 'allocation %d refused: an exception escaped' % k
            if e['live']:
                c.update(c2)
                return 'allocation %d refused: %d allocations not released' % (k, e['live'])
            if e['refused'] and e['rc'] != 2:
                c.update(c2)
                return 'allocation %d refused: returned %d instead of out-of-memory' % (k, e['rc'])
    except Crash as e:
        if 'failat' in c or 'c2' in locals():
            c.update(locals().get('c2', {}))
            return 'allocation refused: ' + str(e)
        return None
    return None


def independent(r, c, rng=None):
    """fresh memory may hold anything and other calls may run in between"""
    go = (lambda: r.stream(c['options'], c['inputs'], c['chunks'])) if c['kind'] == 'stream' else lambda: run_batch(r, c)
    try:
        r.mode()
        a = go()
        for fill, noise, what in ((0x40, 0, 'what fresh memory happens to contain'), (0xA5, 1, 'other calls made in between')):
            r.mode(fill, noise)
            b = go()
            r.mode()
            if a['rc'] != b['rc']:
                return 'the return code depends on ' + what
            for k in range(len(a['outs'])):
                x, y = a['outs'][k], b['outs'][k]
                if x != y:
                    for j, (u, v) in enumerate(zip(doubles(x), doubles(y))):
                        if u != v and not (u != u and v != v):
                            return 'output %d element %d is %r or %r, depending on %s' % (k, j, u, v, what)
    except Crash:
        return None
    return None


def same(a, b, tol, scale):
    a, b = doubles(a), doubles(b)
    for k, (x, y) in enumerate(zip(a, b)):
        if not close(x, y, tol, scale):
            return k, x, y
    return None


def causal_batch(r, c, rng):
    """a longer series, and different later bars, leave earlier outputs alone"""
    n = len(c['inputs'][0]) if c['inputs'] else 0
    m = c.get('cut')
    if m is None:
        m = c['cut'] = rng.randint(0, n)
    try:
        a = run_batch(r, c)
        b = run_batch(r, dict(c, inputs=[s[:m] for s in c['inputs']]))
    except Crash:
        return None
    if a['rc'] != 0 or b['rc'] != 0:
        return None
    for k in range(len(a['outs'])):
        if a['outs'][k][:len(b['outs'][k])] != b['outs'][k]:
            x, y = doubles(a['outs'][k]), doubles(b['outs'][k])
            j = next(i for i in range(len(y)) if a['outs'][k][8 * i:8 * i + 8] != b['outs'][k][8 * i:8 * i + 8])
            if x[j] != x[j] and y[j] != y[j]:
                continue
            return 'output %d element %d is %r on the first %d bars but %r on all %d' % (k, j, y[j], m, x[j], n)
    return None


def safe_stream(r, c, rng=None):
    try:
        d = r.stream(c['options'], c['inputs'], c['chunks'])
    except Crash as e:
        return 'memory or arithmetic error: ' + str(e)
    if d['changed']:
        return 'the inputs were modified'
    return None


def resources_stream(r, c, rng=None):
    try:
        d = r.stream(c['options'], c['inputs'], c['chunks'])
        if d['exc'] or any(x for _, _, x, _, _ in d['runs']):
            return 'an exception escaped'
        if d['live'] and not d['refused']:
            return '%d allocations not released (construction returned %d)' % (d['live'], d['rc'])
        for k in range(min(d['nalloc'], 12)):
            c2 = dict(c, failat=k)
            e = r.stream(c['options'], c['inputs'], c['chunks'], failat=k)
            c.update(failat=k)
            if e['exc'] or any(x for _, _, x, _, _ in e['runs']):
                return 'allocation %d refused: an exception escaped' % k
            if e['live']:
                return 'allocation %d refused: %d allocations not released' % (k, e['live'])
            if e['refused'] and e['rc'] == 0 and all(x[1] == 0 for x in e['runs']):
                return 'allocation %d refused: not reported' % k
            del c['failat']
    except Crash as e:
        if 'c2' in locals():
            return 'allocation refused: ' + str(e)
        return None
    return None


def progress_stream(r, c, rng=None):
    """exactly one output per bar from the first complete one, progress counts bars"""
    try:
        d = r.stream(c['options'], c['inputs'], c['chunks'])
    except Crash as e:
        return None if 'timeout' not in str(e) else 'does not terminate'
    if d['rc'] != 0 or d['exc']:
        return None
    if d['progress0'] != -d['start']:
        return 'initial progress %d, start %d' % (d['progress0'], d['start'])
    p = d['progress0']
    for (m, rc, x, prog, n) in d['runs']:
        if rc != 0:
            return 'a chunk of %d bars returned %d' % (m, rc)
        p += m
        if prog != p:
            return 'progress is %d after %d bars (start %d)' % (prog, p + d['start'], d['start'])
    for k, o in enumerate(d['outs']):
        u = unwritten(o)
        if u:
            return 'output %d: element %d of %d was not written' % (k, u[0], len(o) // 8)
    return None


def index_stream(r, c, rng=None):
    """the stream object selects its own registry entry"""
    try:
        d = r.stream(c['options'], c['inputs'], c['chunks'])
    except Crash:
        return None
    want = sorted(r.nat.lib.yaml).index(r.name)
    if d['rc'] == 0 and not d['exc'] and d['index'] != want:
        return 'the stream of %s carries index %d, its entry is %d' % (r.name, d['index'], want)
    return None


def chunks_stream(r, c, rng=None):
    s = progress_stream(r, c)
    if s:
        return s
    n = sum(c['chunks'])
    try:
        a = r.stream(c['options'], c['inputs'], c['chunks'])
        b = r.stream(c['options'], c['inputs'], [n])
    except Crash:
        return None
    if a['rc'] != b['rc']:
        return 'construction returned %d then %d for the same options' % (a['rc'], b['rc'])
    for k in range(len(a['outs'])):
        x, y = a['outs'][k], b['outs'][k]
        if x != y:
            for j, (u, v) in enumerate(zip(doubles(x), doubles(y))):
                if not close(u, v, 1e-12, 0):
                    return 'output %d element %d is %r in chunks %s but %r in one call' % (k, j, u, c['chunks'], v)
    return None


def stream_vs_batch(r, c, rng=None):
    try:
        a = r.stream(c['options'], c['inputs'], c['chunks'])
        b = r.batch(c['options'], c['inputs'])
    except Crash:
        return None
    if a['rc'] != 0 or b['rc'] != 0 or a['exc'] or b['exc']:
        return None
    return differ(a, b, c, 'stream', 'batch')


def ref_vs_batch(r, c, rng=None):
    try:
        a = r.batch(c['options'], c['inputs'], ref=True)
        b = r.batch(c['options'], c['inputs'])
    except Crash:
        return None
    if a['rc'] != 0 or b['rc'] != 0 or a['exc'] or b['exc']:
        return None
    return differ(a, b, c, 'reference', 'batch')


def differ(a, b, c, na, nb):
    m = max([1.0] + [abs(x) for s in c['inputs'] for x in s if x == x])
    for k in range(len(a['outs'])):
        if len(a['outs'][k]) != len(b['outs'][k]):
            return 'output %d: %s has %d elements, %s %d' % (k, na, len(a['outs'][k]) // 8, nb, len(b['outs'][k]) // 8)
        for j, (u, v) in enumerate(zip(doubles(a['outs'][k]), doubles(b['outs'][k]))):
            if u != u or v != v or math.isinf(u) or math.isinf(v):
                continue
            if not close(u, v, 1e-5, m * 1e-3):
                return 'output %d element %d: %s %r, %s %r' % (k, j, na, u, nb, v)
    return None


def accept_agrees(r, c, rng=None):
    """batch, reference and stream accept the same options"""
    codes = {}
    try:
        codes['batch'] = r.batch(c['options'], c['inputs'])['rc']
        if r.have & 2:
            codes['reference'] = r.batch(c['options'], c['inputs'], ref=True)['rc']
        if r.have & 4:
            codes['stream'] = r.stream(c['options'], c['inputs'], [len(c['inputs'][0])] if c['inputs'] else [])['rc']
    except Crash:
        return None
    if len({x == 1 for x in codes.values()}) > 1:
        return 'options %s: %s' % (c['options'], ', '.join('%s returns %d' % kv for kv in codes.items()))
    d = r.batch(c['options'], c['inputs'])
    if d['rc'] == 0 and d['start'] < 0:
        return 'options %s accepted but the start offset is %d' % (c['options'], d['start'])
    return None


def search(nat, name, kind, oracle, seed=1, budget=5.0, ncases=2000, hints=(), weird=False, edge=True, big=True, integral=False, runner=None, positive=False):
    """kind: batch | ref | stream; hints: [(size or None, {option: value})]"""
    rng = random.Random('%s/%s/%s' % (seed, name, kind))
    r = runner or Runner(nat, name)
    sp = r.sp
    t0 = time.time()
    n = 0
    try:
        r.up()
        if kind == 'ref' and not r.have & 2 or kind == 'stream' and not r.have & 4 or kind == 'batch' and not r.have & 1:
            return None, 0
        hq = list(hints) * 6
        while n < ncases and time.time() - t0 < budget:
            h = None
            if hq and n % 2 == 0:
                h = hq.pop(0)
            o = gen_options(rng, sp, edge and rng.random() < .5)
            if h is not None:
                for k, v in h[1].items():
                    if k < len(o):
                        o[k] = v
            if integral:
                o = [float(int(x)) if ('period' in str(sp.optnames[k])) else x for k, x in enumerate(o)]
            if positive:
                o = [abs(x) for x in o]
            try:
                st = r.batch(o, gen_inputs(rng, sp, 0))['start'] if sp.nopt else 0
            except Crash:
                st = start_guess(o)
            sz = gen_size(rng, st, big)
            if h is not None and h[0] is not None and h[0] < 20000 and rng.random() < .7:
                sz = h[0]
            c = case(name, kind, o, gen_inputs(rng, sp, sz, weird))
            if kind == 'stream':
                c['chunks'] = pieces(rng, sz)
            n += 1
            why = oracle(r, c, rng)
            if why:
                return (c, why), n
    finally:
        if runner is None:
            r.close()
    return None, n
