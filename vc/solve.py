import time, z3
from terms import *

STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0, 'slow': 0}


def limit(s, ms):
    """a deterministic effort limit (about ms milliseconds of work), with a
    generous wall-clock limit behind it for a loaded machine"""
    s.set('rlimit', int(ms * 5000))
    s.set('timeout', int(ms * 10))
    s.wall = ms / 100.0


def _check(self, *a, old=z3.Solver.check):
    """a query given up because of the clock, not of the work it takes, is counted: what follows from it says nothing"""
    t = time.time()
    r = old(self, *a)
    if r == z3.unknown and time.time() - t > .9 * getattr(self, 'wall', 1e9):
        STATS['slow'] += 1
    return r


z3.Solver.check = _check


class Slv:
    def __init__(self, timeout=4000, logic=None):
        self.s = z3.SolverFor(logic) if logic else z3.Solver()
        limit(self.s, timeout)

    def check(self, *fs):
        t = time.time()
        self.s.push()
        for f in fs:
            self.s.add(zb(f))
        r = self.s.check()
        m = None
        if r == z3.sat:
            m = self.s.model()
        self.s.pop()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        return r, m


def houdini(ex, timeout=2000, maxit=4000, verbose=False):
    """drop candidate invariants until the remaining ones are inductive; an
    obligation may use only the assumptions that precede it"""
    alive, lit = {}, {}
    s = z3.Solver()
    limit(s, timeout)
    pre = []              # ids of invariants assumed so far, in order
    groups = []           # (len(pre), [obligations])
    nA = 0
    staged = []           # assumption literals of plain assumptions, by group
    cur = None
    stage = None
    nv = 0
    for e in ex.ev:
        if e[0] == 'A':
            # later plain assumptions (definitions, path facts) are guarded by
            # reachability of later points; they are staged as well
            if stage is None or cur is not None:
                stage = z3.Bool('stage!%d' % len(staged))
                staged.append(stage)
                cur = None
            s.add(z3.Implies(stage, e[1]))
        elif e[0] == 'I':
            k = id(e[1])
            if k not in lit:
                lit[k] = z3.Bool('inv!%d' % len(lit))
                alive[k] = e[1]
            s.add(z3.Implies(lit[k], e[2]))
            pre.append(k)
            cur = None
            stage = None
        else:
            o = e[1]
            if not o.kind.startswith('invariant-') or o.status == 'trivial':
                continue
            if cur is None:
                cur = []
                groups.append((len(pre), len(staged), cur))
            v = z3.Bool('viol!%d' % nv)
            nv += 1
            g, f = zb(o.guard), zb(o.f)
            s.add(z3.Implies(v, z3.And(g, z3.Not(f))))
            cur.append((o, v, g, f))
            alive.setdefault(id(o.tag), o.tag)
    dead = set()

    def ck(assum):
        t = time.time()
        r = s.check(*assum)
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        return r

    changed = True
    it = 0
    while changed and it < maxit:
        changed = False
        for npre, nst, obs in groups:
            while True:
                it += 1
                live = [x for x in obs if id(x[0].tag) not in dead]
                if not live:
                    break
                base = staged[:nst] + [lit[k] for k in dict.fromkeys(pre[:npre]) if k not in dead]
                s.push()
                s.add(z3.Or(*[v for _, v, _, _ in live]))
                r = ck(base)
                m = s.model() if r == z3.sat else None
                s.pop()
                if r == z3.unsat:
                    break
                n0 = len(dead)
                if r == z3.sat:
                    for o, v, g, f in live:
                        if z3.is_true(m.eval(z3.And(g, z3.Not(f)), model_completion=True)):
                            dead.add(id(o.tag))
                    if len(dead) == n0:
                        for o, v, g, f in live:
                            if z3.is_true(m.eval(v, model_completion=True)):
                                dead.add(id(o.tag))
                if r != z3.sat or len(dead) == n0:
                    for o, v, g, f in live:
                        if id(o.tag) in dead:
                            continue
                        base = staged[:nst] + [lit[k] for k in dict.fromkeys(pre[:npre]) if k not in dead]
                        if ck(base + [v]) != z3.unsat:
                            dead.add(id(o.tag))
                    if len(dead) > n0:
                        changed = True
                    break
                changed = True
    return [v for k, v in alive.items() if k not in dead]


def discharge(ex, timeout=4000, only=None, want_model=False, stop_first=False):
    """ordered pass: every obligation is proved from the assumptions that
    precede it.  Returns (total, discharged, failures)"""
    s = z3.Solver()
    limit(s, timeout)
    total = done = 0
    fails = []
    pend = []

    def flush():
        nonlocal done
        if not pend:
            return
        if len(pend) > 1:
            t = time.time()
            s.push()
            s.add(z3.Or(*[z3.And(zb(o.guard), z3.Not(zb(o.f))) for o in pend]))
            r = s.check()
            s.pop()
            STATS['queries'] += 1
            STATS['time'] += time.time() - t
            if r == z3.unsat:
                for o in pend:
                    o.status = 'proved'
                done += len(pend)
                pend.clear()
                return
        for o in pend:
            t = time.time()
            s.push()
            s.add(zb(o.guard))
            s.add(z3.Not(zb(o.f)))
            r = s.check()
            mod = s.model() if r == z3.sat else None
            s.pop()
            STATS['queries'] += 1
            STATS['time'] += time.time() - t
            if r == z3.unsat:
                o.status = 'proved'
                done += 1
            else:
                o.status = 'failed' if r == z3.sat else 'unknown'
                fails.append((o, mod))
        pend.clear()

    for e in ex.ev:
        if e[0] == 'A':
            flush()
            s.add(e[1])
        elif e[0] == 'I':
            flush()
            s.add(e[2])
        else:
            o = e[1]
            if only is not None and not only(o):
                continue
            total += 1
            if o.status == 'trivial':
                done += 1
                continue
            pend.append(o)
            if len(pend) >= 40:
                flush()
    flush()
    return total, done, fails, s
