"""Counter-models: a reported mismatch between two symbolic terms is confirmed by
an interpretation of the uninterpreted symbols under which the path facts hold
and the two terms differ.  This evaluates terms, never repository code."""
import hashlib
import math
import random
from fractions import Fraction
from values import *
import values as V
import term as T


class Unk(Exception):
    pass


INTPOOL = [0, 1, 2, 3, 4]


class Model:
    def __init__(self, seed, pools=None):
        self.seed = seed
        self.pools = pools or {}
        self.cache = {}
        self.extra = {}
        self.work = 0
        self.rng = random.Random(seed)
        self.nonneg_reals = True

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big') / 2.0 ** 64

    def pick(self, pool, *key):
        return pool[int(self.h(*key) * len(pool)) % len(pool)]

    # ---------------------------------------------------------------- terms
    def poly(self, p, env):
        s = 0.0
        for mo, c in p.m.items():
            t = float(c) if abs(c.numerator) < 10**300 and c.denominator < 10**300 else float(c)
            for a, e in mo:
                v = self.atom(a, env)
                if isinstance(v, str):
                    raise Unk('token in arithmetic')
                ee = self.poly(e, env) if isinstance(e, Poly) else e
                t = t * self.power(v, ee)
            s += t
        return s

    def power(self, v, e):
        if e == 1:
            return v
        e = float(e)
        if v == 0 and e < 0:
            raise Unk('division by zero')
        if v < 0 and abs(e - round(e)) > 1e-12:
            raise Unk('root of a negative number')
        if abs(e) > 400:
            raise Unk('huge power')
        return float(v) ** (int(round(e)) if abs(e - round(e)) < 1e-12 else e)

    def tok(self, x, env):
        """hashable denotation of an argument"""
        if isinstance(x, Poly):
            if len(x.m) == 1:
                (mo, c), = x.m.items()
                if c == 1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind in ('fn', 'fni', 'der', 'obj', 'bas'):
                    return self.atom(mo[0][0], env)
            return round(self.poly(x, env), 9)
        if isinstance(x, Formula):
            return self.form(x, env)
        if isinstance(x, tuple):
            return tuple(self.tok(y, env) for y in x)
        return x

    def integer(self, p, env):
        v = self.poly(p, env)
        r = round(v)
        if abs(v - r) > 1e-6:
            raise Unk('non integral')
        return int(r)

    def upto(self, n):
        self.work += max(n, 0)
        if n > 1500 or self.work > 60000:
            raise Unk('long sum')
        return range(n)

    def atom(self, a, env):
        if a in env:
            return env[a]
        k = a.kind
        A = a.args
        if k == 'bv':
            return self.value(a, (a.args[0],))
        if k in ('fn', 'fni', 'obj', 'bas'):
            return '%s%r' % (k, tuple(self.tok(x, env) for x in A))
        if k == 'der':
            return '%s^(%s)' % (self.tok(A[0], env), self.tok(A[1], env))
        if k == 'sym':
            return self.value(a, (A[0],))
        if k in ('app', 'val', 'dom0', 'dom1', 'codom', 'bdim', 'bev', 'bdm', 'btev', 'gram', 'gramt', 'solution', 'phi', 'phiarr') or k in self.pools:
            return self.value(a, tuple(self.tok(x, env) for x in A))
        if k == 'uninit' or k == 'opaque':
            return self.value(a, tuple(self.tok(x, env) for x in A))
        if k == 'ite':
            return self.poly(A[1] if self.form(A[0], env) else A[2], env)
        if k == 'abs':
            return abs(self.poly(A[0], env))
        if k == 'P':
            return self.poly(A[0], env)
        if k == 'powc':
            return self.power(self.poly(A[0], env), self.poly(A[1], env))
        if k == 'num':
            x = A[0]
            return float(x) if not isinstance(x, Poly) else self.poly(x, env)
        if k == 'signpow':
            return -1.0 if self.integer(A[0], env) % 2 else 1.0
        if k in ('cos', 'sin', 'exp'):
            return getattr(math, k)(min(self.poly(A[0], env), 50))
        if k in ('max', 'min'):
            return (max if k == 'max' else min)(self.poly(x, env) for x in A)
        if k in ('idiv', 'imod'):
            x, y = self.integer(A[0], env), self.integer(A[1], env)
            if y == 0:
                raise Unk('division by zero')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if k == 'idiv' else x - q * y
        if k in ('sum', 'prod'):
            n = self.integer(A[1], env)
            r = 0.0 if k == 'sum' else 1.0
            for i in self.upto(n):
                e2 = dict(env)
                e2[A[0]] = i
                v = self.poly(A[2], e2)
                r = r + v if k == 'sum' else r * v
            return r
        if k == 'fold':
            n = self.integer(A[2], env)
            r = self.poly(A[4], env)
            for i in self.upto(n):
                e2 = dict(env)
                e2[A[0]] = i
                e2[A[1]] = r
                r = self.poly(A[3], e2)
            return r
        if k == 'first':
            n = self.integer(A[1], env)
            for i in self.upto(n):
                e2 = dict(env)
                e2[A[0]] = i
                if self.form(A[2], e2):
                    return i
            raise Unk('no first')
        raise Unk('atom %s' % k)

    def value(self, a, key):
        key = (a.kind,) + key
        if key in self.cache:
            return self.cache[key]
        ex = self.extra.get(a)
        if ex and self.h('extra', *key) < 0.6:
            v = self.cache[key] = self.pick(ex, *key)
            return v
        pool = self.pools.get(a.kind)
        if pool is None and a.kind == 'app':
            pool = self.pools.get(key[1])
        if pool is None and a.kind == 'sym':
            pool = self.pools.get(key[1])
        if pool is not None:
            v = self.pick(pool, *key)
        elif a.sort == 'int':
            v = self.pick(INTPOOL if a.nonneg else [-1] + INTPOOL, *key)
        elif a.nonneg:
            v = 0.2 + 2 * self.h(*key)
        else:
            v = 3 * self.h(*key) - 1.4
        self.cache[key] = v
        return v

    # ------------------------------------------------------------- formulas
    def form(self, f, env):
        if f.k == 'true':
            return True
        if f.k == 'false':
            return False
        if f.k == 'and':
            return all(self.form(x, env) for x in f.args)
        if f.k == 'or':
            return any(self.form(x, env) for x in f.args)
        if f.k == 'not':
            return not self.form(f.args[0], env)
        if f.k == 'cmp':
            v = self.poly(f.args[1], env)
            op = f.args[0]
            eps = 1e-11
            if op == '<':
                return v < -eps
            if op == '<=':
                return v <= eps
            if op == '=':
                return abs(v) <= eps
            return abs(v) > eps
        if f.k == 'batom':
            A = f.args
            if A[0] == 'exists':
                n = self.integer(A[2], env)
                for i in self.upto(n):
                    e2 = dict(env)
                    e2[A[1]] = i
                    if self.form(A[3], e2):
                        return True
                return False
            return self.h('batom', *[self.tok(x, env) for x in A]) < 0.5
        raise Unk('formula %s' % f.k)


POOLS = {'dom0': [0.0, 1.0, 2.0], 'dom1': [1.0, 2.0, 3.0], 'codom': [1, 1, 2, 3],
         'T': [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0], 'fdeg': [0, 1, 2, 3], 'solverinfo': [0]}


def equations(facts):
    """classes of atoms that the facts equate, with the constant if any"""
    par, const = {}, {}

    def find(a):
        while par.get(a, a) != a:
            a = par[a]
        return a
    for f in facts:
        if f.k != 'cmp' or f.args[0] != '=':
            continue
        lin = []
        c0 = 0
        for mo, c in f.args[1].m.items():
            if not mo:
                c0 = c
            elif len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind in ('dom0', 'dom1', 'codom', 'sym', 'bdim'):
                lin.append((mo[0][0], c))
            else:
                lin = None
                break
        if not lin:
            continue
        if len(lin) == 1:
            const[find(lin[0][0])] = float(-c0 / lin[0][1])
        elif len(lin) == 2 and c0 == 0 and lin[0][1] == -lin[1][1]:
            a, b = find(lin[0][0]), find(lin[1][0])
            if a != b:
                par[b] = a
                if b in const:
                    const[a] = const[b]
    cls = {}
    for a in list(par) + list(const):
        cls.setdefault(find(a), set()).add(a)
    return [(r, sorted(xs, key=str), const.get(r)) for r, xs in cls.items()]


def preset(m, eqs):
    for r, xs, c in eqs:
        v = c if c is not None else m.atom(r, {})
        for a in xs:
            m.cache[(a.kind,) + tuple(m.tok(x, {}) for x in a.args)] = v
        m.cache[(r.kind,) + tuple(m.tok(x, {}) for x in r.args)] = v


def thresholds(terms):
    """values around the constants that conditions compare single quantities with"""
    out = {}

    def cmp_(f):
        p = f.args[1]
        c0 = p.m.get((), 0)
        rest = [(mo, c) for mo, c in p.m.items() if mo]
        if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1:
            a, c = rest[0][0][0][0], rest[0][1]
            if a.kind in ('sym', 'codom', 'bdim', 'dom0', 'dom1', 'app'):
                v = float(-c0 / c)
                if abs(v) < 1e6:
                    xs = (math.floor(v) - 1, math.floor(v), math.floor(v) + 1, math.floor(v) + 2) if a.sort == 'int' else (v, v - 1, v + 1, v * 1.3 + 0.01)
                    if a.nonneg:
                        xs = [x for x in xs if x >= 0]
                    if len(xs):
                        out.setdefault(a, set()).update(xs)

    def form(f):
        if f.k in ('and', 'or', 'not'):
            for x in f.args:
                form(x)
        elif f.k == 'cmp':
            cmp_(f)
    for t in terms:
        if isinstance(t, Formula):
            form(t)
        elif isinstance(t, Poly):
            for a in T.atoms_of(t, lambda a: a.kind == 'ite'):
                form(a.args[0])
    return {a: sorted(xs) for a, xs in out.items()}


def bounding(facts):
    """per real symbol: the inequalities that are linear in it, as (coefficient, rest, strict)"""
    out = {}
    for f in facts:
        if f.k != 'cmp' or f.args[0] not in ('<', '<='):
            continue
        p = f.args[1]
        for mo, c in p.m.items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind == 'sym' and mo[0][0].sort != 'int':
                a = mo[0][0]
                rest = p - Poly({mo: c})
                if not any(x is a for x in T.atoms_of(rest, lambda x: x is a)):
                    out.setdefault(a, []).append((float(c), rest))
    return out


def repair(m, bnd, skip):
    """move each bounded symbol between its bounds"""
    for a in sorted(bnd, key=lambda a: str(a.args[0])):
        if a in skip:
            continue
        lo, hi = -math.inf, math.inf
        for c, rest in bnd[a]:
            v = -m.poly(rest, {}) / c
            if c > 0:
                hi = min(hi, v)
            else:
                lo = max(lo, v)
        if lo < hi:
            x = m.h('repair', a.args[0])
            if math.isinf(lo) and math.isinf(hi):
                continue
            lo2, hi2 = (hi - 2 if math.isinf(lo) else lo), (lo + 2 if math.isinf(hi) else hi)
            old = m.atom(a, {})
            if not lo < old < hi:
                m.cache[(a.kind,) + tuple(m.tok(y, {}) for y in a.args)] = lo2 + (0.05 + 0.9 * x) * (hi2 - lo2)


def find_model(facts, pools=None, tries=3000, start=0, extra=None):
    """an interpretation satisfying all facts"""
    eqs = equations(facts)
    bnd = bounding(facts)
    skip = {a for r, xs, c in eqs for a in [r] + list(xs)}
    extra = {**thresholds(facts), **(extra or {})}
    ps = dict(POOLS)
    ps.update(pools or {})
    facts = sorted(facts, key=lambda f: len(T.show(f)))
    for s in range(start, start + tries):
        m = Model(s, ps)
        if s % 2:
            m.extra = extra
        try:
            preset(m, eqs)
            if all(m.form(f, {}) for f in facts):
                return m, s + 1
            if bnd:
                repair(m, bnd, skip)
                if all(m.form(f, {}) for f in facts):
                    return m, s + 1
        except Unk:
            continue
        except (OverflowError, ZeroDivisionError):
            continue
    return None, start + tries


def differ(a, b, facts, pools=None, n=12, tries=4000):
    """(seed, va, vb) of a model where the terms differ, or None"""
    s = 0
    end = tries
    ex = thresholds([a, b] + list(facts))
    for _ in range(n if not ex else 3 * n):
        m, s = find_model(facts, pools, end - s, s, ex)
        if m is None:
            return None
        try:
            if isinstance(a, Formula):
                va, vb = m.form(a, {}), m.form(b, {})
                if va != vb:
                    return m, va, vb
                continue
            va, vb = m.poly(a, {}), m.poly(b, {})
        except (Unk, OverflowError, ZeroDivisionError):
            continue
        if abs(va - vb) > 1e-6 * (1 + abs(va) + abs(vb)):
            return m, va, vb
    return None


def _opaque_formulas(x, seen=None):
    """undetermined conditions inside a term"""
    if not T.is_opaque(x):
        return []
    out = []

    def go(y):
        if out:
            return
        if isinstance(y, T.Formula) and y.k == 'opaque':
            out.append(y.args[0] if y.args else y)
        elif isinstance(y, T.Poly):
            for mo in y.m:
                for a, e in mo:
                    go(a)
                    go(e)
        elif isinstance(y, (T.Atom, T.Formula)):
            for z in y.args:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)
    go(x)
    return out


def opaque_atoms(x):
    return _opaque_formulas(x) + T.atoms_of(x, lambda a: a.kind in ('opaque', 'rec', 'phi', 'phiarr'))


# interval lengths
for _i in range(14):
    POOLS['L%d' % _i] = [0.02, 0.5, 0.75, 1.25, 3.0, 12.0, 150.0]
