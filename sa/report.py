"""Obligations, verdicts, evidence."""
import json
import os
import signal
import time
from values import *
import term as T
import model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rep:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []
        self.counts = {}
        self.rules = {}
        self.fns = set()
        self.tier = 'quick'
        self.t0 = time.time()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def add(self, verdict, rule, where, inst, detail=''):
        """verdict: ok / bad / unk"""
        self.obl.append((verdict, rule, where, inst, detail))
        r = self.rules.setdefault(rule, {'ok': 0, 'bad': 0, 'unk': 0})
        r[verdict] += 1

    def ok(self, c, rule, where, inst, detail=''):
        self.add('ok' if c else 'bad', rule, where, inst, detail)

    def eq(self, rule, where, inst, got, want, facts=(), pools=None, ctx=None):
        v, d = compare(got, want, facts, pools, ctx)
        self.add(v, rule, where, inst, d)
        return v

    def used(self, m):
        self.fns |= m.visited
        for where, what, ctx in m.oob:
            if model.find_model(ctx.facts, None, 400)[0] is not None:
                self.add('bad', 'access within bounds', where, 'under the conditions of this case', what)
        m.oob = []

    def bad(self):
        return [o for o in self.obl if o[0] == 'bad']


def short(x, n=220):
    s = T.show(x) if isinstance(x, (Poly, Formula)) else str(x)
    return s if len(s) <= n else s[:n] + '...'


def compare(got, want, facts=(), pools=None, ctx=None):
    """('ok'|'bad'|'unk', explanation)"""
    facts = list(facts)
    base = ctx or Ctx(facts)
    if isinstance(got, Opq):
        return 'unk', 'result not tracked: %s' % got.why
    if isinstance(got, Formula) or isinstance(want, Formula):
        got, want = tobool(got), tobool(want)
        try:
            r = T.equivalent(got, want, base)
        except RecursionError:
            r = None
        if r is True:
            return 'ok', ''
    else:
        got, want = topoly(got), topoly(want)
        try:
            r = T.equal(got, want, base)
        except RecursionError:
            r = None
        if r is True:
            return 'ok', ''
    op = model.opaque_atoms(got)
    if op:
        return 'unk', 'value not tracked: %s' % op[0]
    if isinstance(r, tuple) and len(r) >= 4:
        w = model.differ(r[2], r[3], r[1], pools)
        if w is not None:
            # the narrowed case must also refute the whole terms
            pass
        else:
            w = model.differ(got, want, base.facts, pools)
    else:
        w = model.differ(got, want, base.facts, pools)
    if w is None:
        return 'unk', 'no counter-model for %s vs %s' % (short(got), short(want))
    a, b = (r[2], r[3]) if isinstance(r, tuple) and len(r) >= 4 else (got, want)
    return 'bad', 'computes %s, required %s (e.g. %.6g vs %.6g)' % (short(a), short(b), float(w[1]), float(w[2]))


def loc(f, line=None):
    fn = f['file']
    i = fn.find('/repo/')
    if i >= 0:
        fn = fn[i + 6:]
    return '%s:%s %s' % (fn, line or f.get('l'), f['q'])


class Timeout(BaseException):
    pass


T0 = time.time()
BUDGET = {'quick': 600, 'thorough': 800}
SLICE = {'quick': 100, 'thorough': 400}


def _limit(r, fn, task):
    """one task under a time limit; whatever stops the engine is an undecided obligation, never an alarm"""
    left = BUDGET[r.tier] - (time.time() - T0)
    what = 'task %s' % str(task)[:120]
    if left < 1:
        r.add('unk', 'time budget', getattr(fn, '__qualname__', '?'), what, 'not analysed: time budget used up')
        return

    def ring(*_):
        raise Timeout()
    old = None
    try:
        old = signal.signal(signal.SIGALRM, ring)
        signal.alarm(int(min(left, SLICE[r.tier])) + 1)
    except ValueError:  # not the main thread
        old = None
    try:
        fn(r, task)
    except Timeout:
        r.add('unk', 'time budget', getattr(fn, '__qualname__', '?'), what, 'not completed in its time slice')
    except Exception as ex:
        if os.environ.get('SA_DEBUG'):
            raise
        r.add('unk', 'engine', getattr(fn, '__qualname__', '?'), what, '%s: %s' % (type(ex).__name__, ex))
    finally:
        if old is not None:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


def parallel(rep, tasks, fn, jobs=None):
    """run fn(rep', task) for every task in forked workers and merge"""
    import multiprocessing as mp
    if not tasks:
        return
    jobs = jobs or min(8, os.cpu_count() or 1, len(tasks))
    if os.environ.get('SA_SERIAL'):
        for t in tasks:
            fn(rep, t)
        return
    global _PAR
    _PAR = (rep.prop, tasks, fn, rep.tier)
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs) as pool:
        for obl, counts, rules, fns in pool.imap(_work, range(len(tasks)), chunksize=1):
            rep.obl += obl
            rep.fns |= fns
            for k, v in counts.items():
                rep.count(k, v)
            for k, v in rules.items():
                r = rep.rules.setdefault(k, {'ok': 0, 'bad': 0, 'unk': 0})
                for x in v:
                    r[x] += v[x]


def _work(i):
    import sys
    sys.setrecursionlimit(20000)
    prop, tasks, fn, tier = _PAR
    r = Rep(prop)
    r.tier = tier
    _limit(r, fn, tasks[i])
    return r.obl, r.counts, r.rules, r.fns
