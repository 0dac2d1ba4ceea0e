"""Symbolic value domain: canonical polynomials over interned atoms, formulas
over linear comparisons and a small polyhedral entailment test."""
from fractions import Fraction
import itertools

_atoms = {}
_alist = []


class Atom:
    __slots__ = ('kind', 'args', 'id', 'sort', 'nonneg', 'fv', 'op')

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def atom(kind, *args, sort='real', nonneg=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.nonneg = kind, args, sort, nonneg
        a.id = len(_alist)
        fv = set()
        op = kind == 'opaque'
        for x in args:
            fv |= fvs(x)
            op = op or is_opaque(x)
        if kind == 'bv':
            fv.add(a)
        if kind in ('sum', 'prod', 'first', 'fold', 'maxof', 'exists'):
            fv.discard(args[0])
            if kind == 'fold':
                fv.discard(args[1])
        a.fv = frozenset(fv)
        a.op = op
        _atoms[key] = a
        _alist.append(a)
    return a


def fvs(x):
    if isinstance(x, Atom):
        return x.fv
    if isinstance(x, (Poly, Formula)):
        return x.fv
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= fvs(y)
        return r
    return frozenset()


def is_opaque(x):
    if isinstance(x, Atom):
        return x.op
    if isinstance(x, Poly):
        return any(a.op or is_opaque(e) for m in x.m for a, e in m)
    if isinstance(x, Formula):
        return any(is_opaque(y) for y in x.args) or x.k == 'opaque'
    if isinstance(x, tuple):
        return any(is_opaque(y) for y in x)
    return False


def sym(name, sort='real', nonneg=False):
    return Poly.at(atom('sym', name, sort=sort, nonneg=nonneg))


_bvn = itertools.count()


def fresh_bv(name='k', sort='int'):
    return atom('bv', '%s%d' % (name, next(_bvn)), sort=sort, nonneg=True)


_opn = itertools.count()


def opaque(why):
    return Poly.at(atom('opaque', '%s#%d' % (why, next(_opn))))


# ------------------------------------------------------------------ poly
def _eadd(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        r = P(a) + P(b)
        return r.const() if r.is_const() else r
    return a + b


def _emul(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        r = P(a) * P(b)
        return r.const() if r.is_const() else r
    return a * b


class Poly:
    __slots__ = ('m', '_h', '_fv')

    def __init__(self, m):
        self.m = m
        self._h = None
        self._fv = None

    @staticmethod
    def c(v):
        v = Fraction(v)
        return Poly({(): v}) if v else Poly({})

    @staticmethod
    def at(a, e=1):
        return Poly({((a, Fraction(e) if not isinstance(e, Poly) else e),): Fraction(1)})

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), Fraction(0))

    @property
    def fv(self):
        if self._fv is None:
            r = set()
            for mo in self.m:
                for a, e in mo:
                    r |= a.fv
                    if isinstance(e, Poly):
                        r |= e.fv
            self._fv = frozenset(r)
        return self._fv

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __add__(self, o):
        o = P(o)
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.m or not o.m:
            return ZERO
        if o.is_const() and type(self) is Poly:
            c = o.const()
            return Poly({k: v * c for k, v in self.m.items()})
        if self.is_const() and type(o) is Poly:
            c = self.const()
            return Poly({k: v * c for k, v in o.m.items()})
        r = {}
        extra = None
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k, rest = mono_mul(k1, k2)
                if rest is not None:
                    t = Poly({k: v1 * v2}) * rest
                    extra = t if extra is None else extra + t
                    continue
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        p = Poly(r)
        return p if extra is None else p + extra
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        return ppow(self, P(n))

    def __repr__(self):
        return show(self)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly.at(x)
    return Poly.c(x)


ZERO = Poly({})
ONE = Poly.c(1)


def mono_mul(a, b):
    """product of monomials; returns (mono, poly or None) where poly collects
    polynomial bases whose exponent became a positive integer"""
    if not a:
        return _mono_fix(b)
    if not b:
        return _mono_fix(a)
    d = dict(a)
    for x, e in b:
        if x in d:
            n = _eadd(d[x], e)
            if not isinstance(n, Poly) and n == 0:
                del d[x]
            else:
                d[x] = n
        else:
            d[x] = e
    rest = None
    for x in list(d):
        e = d[x]
        if x.kind == 'P' and not isinstance(e, Poly) and e.denominator == 1 and e > 0:
            del d[x]
            q = x.args[0]
            for _ in range(int(e)):
                rest = q if rest is None else rest * q
        elif x.kind == 'num' and not isinstance(e, Poly) and e.denominator == 1:
            del d[x]
            c = Poly.c(Fraction(x.args[0]) ** int(e))
            rest = c if rest is None else rest * c
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), rest


def _lead(p):
    return min(p.m, key=lambda mo: (-sum(1 for _ in mo), [(a.id, str(e)) for a, e in mo]))


def _content(p):
    """(coef, mono, rest): p = coef*mono*rest with rest normalised"""
    lm = _lead(p)
    c = p.m[lm]
    common = None
    for mo in p.m:
        d = {a: e for a, e in mo if not isinstance(e, Poly)}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and d[a] > 0 and e > 0}
        if not common:
            break
    common = {a: e for a, e in (common or {}).items() if e > 0 and e.denominator == 1}
    mono = tuple(sorted(common.items(), key=lambda t: t[0].id))
    q = p
    if mono:
        q = q * Poly({tuple((a, -e) for a, e in mono): Fraction(1)})
    q = q * Poly.c(1 / c)
    return c, mono, q


def inv(p):
    return ppow(p, Poly.c(-1))


def _numpow(c, e):
    """constant c>0 raised to non-integer e"""
    out = ONE
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while n > 1 and f < 1000:
            k = 0
            while n % f == 0:
                n //= f
                k += 1
            if k:
                out = out * _norm_num(f, _emul(e, Fraction(k * sgn)))
            f += 1
        if n > 1:
            out = out * _norm_num(n, _emul(e, Fraction(sgn)))
    return out


def _norm_num(b, e):
    if not isinstance(e, Poly):
        ip = e.numerator // e.denominator
        fr = e - ip
        r = Poly.c(Fraction(b) ** int(ip))
        if fr:
            r = r * Poly({((atom('num', b), fr),): Fraction(1)})
        return r
    # split the constant part of a symbolic exponent
    c0 = e.const()
    ip = c0.numerator // c0.denominator
    rest = e - Poly.c(ip)
    return Poly({((atom('num', b), rest),): Fraction(b) ** int(ip)})


def ppow(p, e):
    e = P(e)
    if e.is_const():
        n = e.const()
        if n == 0:
            return ONE
        if n == 1:
            return p
        if p.is_const():
            c = p.const()
            if c == 0:
                return ZERO if n > 0 else Poly.at(atom('opaque', 'div0'))
            if n.denominator == 1:
                return Poly.c(c ** int(n)) if abs(n) < 4000 else Poly.at(atom('powc', p, e))
            if c < 0:
                return Poly.at(atom('powc', p, e))
            return _numpow(c, n)
        if len(p.m) == 1:
            (mo, c), = p.m.items()
            if n.denominator == 1 or c > 0:
                d = tuple((a, _emul(x, n)) for a, x in mo)
                k, rest = mono_mul((), d) if False else _mono_fix(d)
                r = Poly({k: Fraction(1)})
                if rest is not None:
                    r = r * rest
                return r * ppow(Poly.c(c), e)
            return Poly.at(atom('powc', p, e))
        if n.denominator == 1 and 0 < n <= 6:
            r = p
            for _ in range(int(n) - 1):
                r = r * p
            return r
        c, mono, q = _content(p)
        if n.denominator != 1 and c < 0:
            return Poly.at(atom('powc', p, e))
        r = ppow(Poly.c(c), e)
        if mono:
            r = r * ppow(Poly({mono: Fraction(1)}), e)
        if len(q.m) == 1:
            return r * ppow(q, e)
        return r * Poly({((atom('P', q), n),): Fraction(1)})
    # symbolic exponent
    if p == ONE:
        return ONE
    if p.is_const():
        c = p.const()
        if c > 0:
            return _numpow(c, e)
        if c < 0:
            return Poly.at(atom('signpow', e)) * _numpow(-c, e) if c != -1 else Poly.at(atom('signpow', e))
        return Poly.at(atom('powc', p, e))
    if len(p.m) == 1:
        (mo, c), = p.m.items()
        d = tuple((a, _emul(x, e)) for a, x in mo)
        return Poly({d: Fraction(1)}) * ppow(Poly.c(c), e)
    c, mono, q = _content(p)
    if c < 0:
        return Poly.at(atom('powc', p, e))
    r = ppow(Poly.c(c), e)
    if mono:
        r = r * ppow(Poly({mono: Fraction(1)}), e)
    return r * Poly({((atom('P', q), e),): Fraction(1)})


def _mono_fix(d):
    rest = None
    out = []
    for a, e in d:
        if a.kind == 'P' and not isinstance(e, Poly) and e.denominator == 1 and e > 0:
            for _ in range(int(e)):
                rest = a.args[0] if rest is None else rest * a.args[0]
        elif a.kind == 'num' and not isinstance(e, Poly) and e.denominator == 1:
            c = Poly.c(Fraction(a.args[0]) ** int(e))
            rest = c if rest is None else rest * c
        else:
            out.append((a, e))
    return tuple(out), rest


# ------------------------------------------------------- function atoms
def _odd(p):
    """(sign, p') with p' having positive leading coefficient"""
    if not p.m:
        return 1, p
    if p.m[_lead(p)] < 0:
        return -1, -p
    return 1, p


def fabs(p):
    if p.is_const():
        return Poly.c(abs(p.const()))
    _, q = _odd(p)
    if len(q.m) == 1:
        (mo, c), = q.m.items()
        r = Poly.c(abs(c))
        for a, e in mo:
            if a.nonneg or a.kind == 'abs':
                r = r * Poly({((a, e),): Fraction(1)})
            else:
                r = r * ppow(Poly.at(atom('abs', Poly.at(a), nonneg=True)), P(e))
        return r
    return Poly.at(atom('abs', q, nonneg=True))


def fun(name, *args, sort='real'):
    args = tuple(args)
    if name == 'cos':
        return Poly.at(atom('cos', _odd(args[0])[1])) if args[0].m else ONE
    if name == 'sin':
        if not args[0].m:
            return ZERO
        s, q = _odd(args[0])
        return Poly.at(atom('sin', q)) * s
    if name == 'exp':
        if not args[0].m:
            return ONE
        s, q = _odd(args[0])
        return Poly.at(atom('exp', q, nonneg=True), s)
    if name in ('max', 'min'):
        s = []
        for a in args:
            if len(a.m) == 1:
                (mo, c), = a.m.items()
                if c == 1 and len(mo) == 1 and mo[0][0].kind == name and mo[0][1] == 1:
                    s += mo[0][0].args
                    continue
            s.append(a)
        s = sorted(set(s), key=lambda p: show(p))
        cs = [a.const() for a in s if a.is_const()]
        if cs:
            c = Poly.c(max(cs) if name == 'max' else min(cs))
            s = [a for a in s if not a.is_const()] + [c]
        if len(s) == 1:
            return s[0]
        return Poly.at(atom(name, *s, sort=sort))
    if name in ('trunc', 'floor', 'ceil', 'round') and len(args) == 1 and args[0].is_const():
        import math
        c = args[0].const()
        if name == 'round':
            r = math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1)
        else:
            r = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil}[name](c)
        return Poly.c(Fraction(r))
    return Poly.at(atom('app', name, *args, sort=sort))


def closed_val(p):
    """(value, magnitude) of a term without unknowns built from elementary
    functions of constants, or None"""
    import math
    r = mag = 0.0
    try:
        for mo, c in p.m.items():
            v = float(c)
            for a, e in mo:
                if isinstance(e, Poly) or not a.args or not isinstance(a.args[-1], Poly):
                    return None
                if a.kind == 'app' and len(a.args) == 2 and a.args[0] in ('sqrt', 'log', 'tan', 'acos', 'asin', 'atan'):
                    fn = getattr(math, a.args[0])
                elif a.kind in ('cos', 'sin', 'exp', 'P', 'abs') and len(a.args) == 1:
                    fn = {'P': lambda x: x, 'abs': abs}.get(a.kind) or getattr(math, a.kind)
                else:
                    return None
                y = closed_val(a.args[-1])
                if y is None or abs(y[0]) < 1e-9 * y[1]:
                    return None
                v *= fn(y[0]) ** float(e)
            r += v
            mag += abs(v)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    return (r, mag) if not isinstance(r, complex) else None


def is_int(p):
    return all(all(a.sort == 'int' and not isinstance(e, Poly) and e.denominator == 1 and e > 0 for a, e in mo)
               for mo in p.m) and all(c.denominator == 1 for c in p.m.values())


def idiv(a, b):
    if a.is_const() and b.is_const() and b.const():
        q = a.const() / b.const()
        return Poly.c(abs(q.numerator) // q.denominator * (1 if q >= 0 else -1))
    # exact division of every monomial (b a single monomial): a = b*q + r
    if len(b.m) == 1:
        (mb, cb), = b.m.items()
        q, r = {}, {}
        for mo, c in a.m.items():
            d = dict(mo)
            ok = (c / cb).denominator == 1
            for x, e in mb:
                if x in d and not isinstance(d[x], Poly) and d[x] >= e:
                    d[x] -= e
                    if d[x] == 0:
                        del d[x]
                else:
                    ok = False
            if ok:
                q[tuple(sorted(d.items(), key=lambda t: t[0].id))] = c / cb
            else:
                r[mo] = c
        q, r = Poly(q), Poly(r)
        if not r.m:
            return q
        if q.m:
            return q + Poly.at(atom('idiv', r, b, sort='int', nonneg=True))
    return Poly.at(atom('idiv', a, b, sort='int', nonneg=True))


def imod(a, b):
    if a.is_const() and b.is_const() and b.const():
        x, y = int(a.const()), int(b.const())
        return Poly.c(x - int(idiv(a, b).const()) * y)
    d = idiv(a, b)
    return a - b * d if not any(x.kind == 'idiv' for mo in d.m for x, _ in mo) else \
        Poly.at(atom('imod', *(_modred(a, b)), sort='int', nonneg=True))


def _modred(a, b):
    d = idiv(a, b)
    for mo in d.m:
        for x, _ in mo:
            if x.kind == 'idiv':
                return x.args
    return (a, b)


# ------------------------------------------------------------- formulas
class Formula:
    __slots__ = ('k', 'args', '_h', 'fv')

    def __init__(self, k, *args):
        self.k, self.args = k, args
        self._h = hash((k, args))
        fv = set()
        for a in args:
            fv |= fvs(a)
        if k == 'batom' and args[0] == 'exists':
            fv.discard(args[1])
        self.fv = frozenset(fv)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Formula) and self._h == o._h and self.k == o.k and self.args == o.args

    def __repr__(self):
        return show(self)


TRUE = Formula('true')
FALSE = Formula('false')


_cmpc = {}


def cmp0(op, p):
    k = (op, p)
    r = _cmpc.get(k)
    if r is None:
        r = _cmpc[k] = _cmp0(op, p)
    return r


def _cmp0(op, p):
    """p op 0, op in < <= = !="""
    if p.is_const():
        c = p.const()
        v = {'<': c < 0, '<=': c <= 0, '=': c == 0, '!=': c != 0}[op]
        return TRUE if v else FALSE
    if any(a.kind in ('cos', 'sin', 'exp') for mo in p.m for a, _ in mo) or any(a.kind == 'abs' for mo in p.m for a, _ in mo):
        v = closed_val(p)
        if v is not None and abs(v[0]) > 1e-7 * v[1]:
            return TRUE if (v[0] < 0 and op in ('<', '<=')) or op == '!=' else FALSE
    # an if-then-else atom of constants: push the comparison inside
    if len([mo for mo in p.m if mo]) == 1:
        mo = [mo for mo in p.m if mo][0]
        if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind == 'ite':
            a = mo[0][0]
            c, k = p.m[mo], p.m.get((), Fraction(0))
            return f_ite(a.args[0], cmp0(op, a.args[1] * c + k), cmp0(op, a.args[2] * c + k))
    lm = _lead(p)
    c = p.m[lm]
    isint = is_int(Poly({k: v for k, v in p.m.items()})) if all(
        a.sort == 'int' for mo in p.m for a, _ in mo) else False
    if isint or all(a.sort == 'int' and not isinstance(e, Poly) and e > 0 and e.denominator == 1
                    for mo in p.m for a, e in mo):
        from math import gcd
        den = 1
        for v in p.m.values():
            den = den * v.denominator // gcd(den, v.denominator)
        g = 0
        for k, v in p.m.items():
            if k:
                g = gcd(g, int(v * den))
        g = g or 1
        q = Poly({k: v * den / g for k, v in p.m.items()})
        # integer tightening
        c0 = q.const()
        if op == '<':
            # q < 0  <=> q' + ceil(c0 + tiny)... : q'+c0 <= -1/g.. use integers
            body = q - Poly.c(c0)
            import math
            k = math.floor(-c0) if c0.denominator != 1 else int(-c0) - 1
            q = body - Poly.c(k)
            op = '<='
        elif op == '<=':
            import math
            body = q - Poly.c(c0)
            q = body - Poly.c(math.floor(-c0))
        elif c0.denominator != 1:
            return FALSE if op == '=' else TRUE
        p = q
        if op in ('=', '!='):
            if p.m[_lead(p)] < 0:
                p = -p
        return Formula('cmp', op, p)
    if op in ('=', '!='):
        p = p * Poly.c(1 / c)
    else:
        p = p * Poly.c(1 / abs(c))
    return Formula('cmp', op, p)


def lt(a, b):
    return cmp0('<', P(a) - P(b))


def le(a, b):
    return cmp0('<=', P(a) - P(b))


def eq(a, b):
    return cmp0('=', P(a) - P(b))


def ne(a, b):
    return cmp0('!=', P(a) - P(b))


def batom(name, *args):
    return Formula('batom', name, *args)


def bopaque(why):
    return Formula('opaque', '%s#%d' % (why, next(_opn)))


_notc = {}


def f_not(f):
    r = _notc.get(f)
    if r is None:
        r = _notc[f] = _f_not(f)
    return r


def _f_not(f):
    if f is TRUE or f.k == 'true':
        return FALSE
    if f.k == 'false':
        return TRUE
    if f.k == 'cmp':
        op, p = f.args
        if op == '<':
            return cmp0('<=', -p)
        if op == '<=':
            return cmp0('<', -p)
        return Formula('cmp', {'=': '!=', '!=': '='}[op], p)
    if f.k == 'and':
        return f_or(*[f_not(x) for x in f.args])
    if f.k == 'or':
        return f_and(*[f_not(x) for x in f.args])
    if f.k == 'not':
        return f.args[0]
    return Formula('not', f)


def f_and(*fs):
    out = []
    for f in fs:
        if f.k == 'true':
            continue
        if f.k == 'false':
            return FALSE
        if f.k == 'and':
            out += [x for x in f.args if x not in out]
        elif f not in out:
            out.append(f)
    for x in out:
        if f_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Formula('and', *sorted(out, key=show))


def f_or(*fs):
    out = []
    for f in fs:
        if f.k == 'false':
            continue
        if f.k == 'true':
            return TRUE
        if f.k == 'or':
            out += [x for x in f.args if x not in out]
        elif f not in out:
            out.append(f)
    for x in out:
        if f_not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # common conjuncts
    return Formula('or', *sorted(out, key=show))


def f_ite(c, a, b):
    return f_or(f_and(c, a), f_and(f_not(c), b))


def ite(c, a, b):
    """numeric if-then-else"""
    if c.k == 'true':
        return a
    if c.k == 'false':
        return b
    if a == b:
        return a
    # drop nested tests of the same condition
    a = assume_simple(a, c, True)
    b = assume_simple(b, c, False)
    if a == b:
        return a
    # pull out common part
    d = a - b
    if isinstance(a, Poly) and c.k == 'not':
        c, a, b = c.args[0], b, a
    sort = 'int' if is_int(a) and is_int(b) else 'real'
    nn = (_nonneg(a) and _nonneg(b))
    return Poly.at(atom('ite', c, a, b, sort=sort, nonneg=nn))


def _nonneg(p):
    return all(c >= 0 and all(a.nonneg for a, _ in mo) for mo, c in p.m.items())


def assume_simple(p, c, val):
    if not has_kind(p, 'ite'):
        return p
    lits = {}
    if val:
        for x in (c.args if c.k == 'and' else (c,)):
            lits[x] = TRUE
            lits[f_not(x)] = FALSE
    else:
        for x in (c.args if c.k == 'or' else (c,)):
            lits[x] = FALSE
            lits[f_not(x)] = TRUE
    return subst(p, {}, lits)


_hk = {}


def has_kind(x, kind):
    if isinstance(x, Poly):
        return any(has_kind(a, kind) or (isinstance(e, Poly) and has_kind(e, kind)) for mo in x.m for a, e in mo)
    if isinstance(x, Atom):
        k = (x.id, kind)
        if k not in _hk:
            _hk[k] = x.kind == kind or any(has_kind(y, kind) for y in x.args)
        return _hk[k]
    if isinstance(x, Formula):
        return any(has_kind(y, kind) for y in x.args)
    if isinstance(x, tuple):
        return any(has_kind(y, kind) for y in x)
    return False


def atoms_of(x, pred, out=None, deep=True):
    if out is None:
        out = []
    if isinstance(x, Poly):
        for mo in x.m:
            for a, e in mo:
                atoms_of(a, pred, out, deep)
                if isinstance(e, Poly):
                    atoms_of(e, pred, out, deep)
    elif isinstance(x, Atom):
        if pred(x):
            if x not in out:
                out.append(x)
            if not deep:
                return out
        for y in x.args:
            atoms_of(y, pred, out, deep)
    elif isinstance(x, (Formula,)):
        for y in x.args:
            atoms_of(y, pred, out, deep)
    elif isinstance(x, tuple):
        for y in x:
            atoms_of(y, pred, out, deep)
    return out


# --------------------------------------------------------- substitution
def subst(x, env, lits=None, fn=None, memo=None):
    """replace atoms (env: Atom->Poly), literals (lits: Formula->Formula) and
    optionally rebuild atoms with fn(atom, newargs) -> Poly or None"""
    if memo is None:
        memo = {}
    cap = []

    def capt():
        if not cap:
            c = set()
            for v in env.values():
                c |= v.fv
            cap.append(c)
        return cap[0]

    def go(x):
        if isinstance(x, Poly):
            k = ('p', x)
            if k in memo:
                return memo[k]
            r = ZERO
            changed = False
            parts = []
            for mo, c in x.m.items():
                t = None
                ch = False
                fac = []
                for a, e in mo:
                    na = goa(a)
                    ne_ = go(e) if isinstance(e, Poly) else e
                    if na is not None or ne_ is not e:
                        ch = True
                    fac.append((a, na, e, ne_))
                if not ch:
                    parts.append(Poly({mo: c}))
                    continue
                changed = True
                t = Poly.c(c)
                for a, na, e, ne_ in fac:
                    base = na if na is not None else Poly.at(a)
                    t = t * ppow(base, P(ne_))
                parts.append(t)
            if not changed:
                r = x
            else:
                for t in parts:
                    r = r + t
            memo[k] = r
            return r
        if isinstance(x, Formula):
            k = ('f', x)
            if k in memo:
                return memo[k]
            r = gof(x)
            memo[k] = r
            return r
        if isinstance(x, Atom):
            r = goa(x)
            return r if r is not None else x
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    def gof(f):
        if lits and f in lits:
            return lits[f]
        if f.k == 'cmp':
            np_ = go(f.args[1])
            if np_ is f.args[1]:
                return f
            g = cmp0(f.args[0], np_)
            return lits.get(g, g) if lits else g
        if f.k == 'and':
            return f_and(*[go(y) for y in f.args])
        if f.k == 'or':
            return f_or(*[go(y) for y in f.args])
        if f.k == 'not':
            return f_not(go(f.args[0]))
        if f.k == 'batom':
            args = f.args
            if args[0] == 'exists':
                b = args[1]
                if b in env or b in capt():
                    fb = fresh_bv('a')
                    args = (args[0], fb, args[2], subst(args[3], {b: Poly.at(fb)}))
                n2, c2 = go(args[2]), go(args[3])
                if (args[1], n2, c2) == (f.args[1], f.args[2], f.args[3]):
                    return f
                g = fexists(args[1], n2, c2)
                return lits.get(g, g) if lits else g
            na = tuple(go(y) for y in args)
            if na == f.args:
                return f
            g = Formula('batom', *na)
            return lits.get(g, g) if lits else g
        return f

    def goa(a):
        """None if unchanged else Poly"""
        k = ('a', a)
        if k in memo:
            return memo[k]
        memo[k] = None
        if a in env:
            r = env[a]
        else:
            args = a.args
            if a.kind in BINDERS:
                for b in (args[:2] if a.kind == 'fold' else args[:1]):
                    if b in env or b in capt():
                        f = fresh_bv('a') if b.sort == 'int' else fresh_acc()
                        args = tuple(f if y is b else subst(y, {b: Poly.at(f)}) for y in args)
            na = tuple((y if isinstance(y, Atom) and y.kind == 'bv' and a.kind in BINDERS else go(y)) for y in args)
            same = all(p is q or p == q for p, q in zip(na, a.args))
            r = None
            if fn is not None:
                r = fn(a, na)
            if r is None and not same:
                r = rebuild(a, na)
        memo[k] = r
        return r
    return go(x)


REBUILD = {}
BINDERS = ('sum', 'prod', 'first', 'fold', 'maxof', 'exists')
_acc = [0]


def fresh_acc():
    _acc[0] += 1
    return atom('bv', 'x%d' % _acc[0])


def pfold(bv, acc, n, body, init):
    """value after n steps of acc := body(bv, acc), starting at init"""
    if n.is_const() and n.const() <= 0:
        return init
    if n.is_const() and n.const() <= 4:
        r = init
        for i in range(int(n.const())):
            r = subst(body, {bv: Poly.c(i), acc: r})
        return r
    d = _depth((body, n, init), bv, acc)
    kb = atom('bv', '#%d' % d, sort='int', nonneg=True)
    ab = atom('bv', '#x%d' % d)
    env = {}
    if kb is not bv:
        env[bv] = Poly.at(kb)
    if ab is not acc:
        env[acc] = Poly.at(ab)
    if env:
        body = subst(body, env)
    return Poly.at(atom('fold', kb, ab, n, body, init))


def rebuild(a, na):
    k = a.kind
    if k in REBUILD:
        return REBUILD[k](a, na)
    if k == 'ite':
        return ite(*na)
    if k == 'abs':
        return fabs(na[0])
    if k in ('cos', 'sin', 'exp'):
        return fun(k, *na)
    if k in ('max', 'min'):
        return fun(k, *na, sort=a.sort)
    if k == 'idiv':
        return idiv(*na)
    if k == 'imod':
        return imod(*na)
    if k == 'P':
        return na[0]
    if k == 'powc':
        return ppow(*na)
    if k == 'signpow':
        return ppow(Poly.c(-1), na[0])
    if k == 'sum':
        bv = na[0] if isinstance(na[0], Atom) else a.args[0]
        return psum(bv, na[1], na[2])
    if k == 'prod':
        bv = na[0] if isinstance(na[0], Atom) else a.args[0]
        return pprod(bv, na[1], na[2])
    if k == 'fold':
        return pfold(*na)
    if k == 'first':
        return pfirst(*na)
    return Poly.at(atom(k, *na, sort=a.sort, nonneg=a.nonneg))


# -------------------------------------------------------- sums, products
def _depth(x, *skip):
    """first binder level not used in x; `skip` are the variables being bound"""
    m = 0
    for b in atoms_of(x, lambda a: a.kind == 'bv' and a not in skip):
        nm = b.args[0]
        if nm.startswith('#'):
            m = max(m, int(nm.lstrip('#x')) + 1)
    return m


def canon_bv(body, bv, *others):
    return atom('bv', '#%d' % _depth((body,) + others, bv), sort='int', nonneg=True)


def psum(bv, n, body):
    """sum of body for bv in [0, n)"""
    if not body.m:
        return ZERO
    out = ZERO
    if n.is_const() and n.const() <= 0:
        return ZERO
    if n.is_const() and (n.const() <= 4 or n.const() * len(body.m) <= 64):
        for i in range(int(n.const())):
            out = out + subst(body, {bv: Poly.c(i)})
        return out
    # delta sums: sum_k ite(k = e, f(k), 0) when e is in range: handled by the
    # caller, which knows the context
    for mo, c in body.m.items():
        inn, outm = [], []
        for a, e in mo:
            if bv in a.fv or (isinstance(e, Poly) and bv in e.fv):
                inn.append((a, e))
            else:
                outm.append((a, e))
        o = Poly({tuple(outm): c})
        if not inn:
            out = out + o * n
            continue
        b = Poly({tuple(inn): Fraction(1)})
        if len(inn) == 1 and inn[0] == (bv, Fraction(1)):
            out = out + o * (n * n - n) * Poly.c(Fraction(1, 2))
            continue
        cb = canon_bv(b, bv, n)
        b = subst(b, {bv: Poly.at(cb)}) if cb is not bv else b
        nn = _nonneg(b)
        sort = 'int' if is_int(b) else 'real'
        out = out + o * Poly.at(atom('sum', cb, n, b, nonneg=nn, sort=sort))
    return out


def pprod(bv, n, body):
    if n.is_const() and n.const() <= 0:
        return ONE
    if bv not in body.fv:
        return ppow(body, n)
    if n.is_const() and n.const() <= 4:
        out = ONE
        for i in range(int(n.const())):
            out = out * subst(body, {bv: Poly.c(i)})
        return out
    if len(body.m) == 1:
        (mo, c), = body.m.items()
        out = ppow(Poly.c(c), n) if c != 1 else ONE
        for a, e in mo:
            b = Poly({((a, e),): Fraction(1)})
            if bv not in b.fv:
                out = out * ppow(b, n)
                continue
            if a.kind == 'ite' and e == 1:
                g, x, y = a.args
                if y == ONE and len(x.m) == 1 and len(list(x.m)[0]) > 1:
                    (mo2, c2), = x.m.items()
                    for a2, e2 in mo2:
                        out = out * pprod(bv, n, ite(g, Poly({((a2, e2),): Fraction(1)}), ONE))
                    if c2 != 1:
                        out = out * pprod(bv, n, ite(g, Poly.c(c2), ONE))
                    continue
            out = out * _pprod1(bv, n, b)
        return out
    return _pprod1(bv, n, body)


def _pprod1(bv, n, b):
    cb = canon_bv(b, bv, n)
    if cb is not bv:
        b = subst(b, {bv: Poly.at(cb)})
    return Poly.at(atom('prod', cb, n, b, nonneg=_nonneg(b)))


def pfirst(bv, n, cond):
    """smallest bv in [0,n) with cond (cond known to hold for some)"""
    cb = canon_bv(cond, bv, n)
    if cb is not bv:
        cond = subst(cond, {bv: Poly.at(cb)})
    return Poly.at(atom('first', cb, n, cond, sort='int', nonneg=True))


def fexists(bv, n, cond):
    if cond.k == 'false':
        return FALSE
    if bv not in cond.fv and False:
        return cond
    cb = canon_bv(cond, bv, n)
    if cb is not bv:
        cond = subst(cond, {bv: Poly.at(cb)})
    return batom('exists', cb, n, cond)


# ------------------------------------------------------------ entailment
class Ctx:
    """conjunction of facts"""

    def __init__(self, facts=()):
        self.facts = []
        self.lits = {}
        for f in facts:
            self.add(f)

    def copy(self):
        c = Ctx()
        c.facts = list(self.facts)
        c.lits = dict(self.lits)
        return c

    def add(self, f):
        if f.k == 'true':
            return self
        if f.k == 'and':
            for x in f.args:
                self.add(x)
            return self
        self.lits[f] = TRUE
        self.lits[f_not(f)] = FALSE
        if f not in self.facts:
            self.facts.append(f)
        return self

    def key(self):
        k = getattr(self, '_key', None)
        if k is None or k[0] != len(self.facts):
            k = self._key = (len(self.facts), frozenset(self.facts))
        return k[1]

    def plus(self, *fs):
        c = self.copy()
        for f in fs:
            c.add(f)
        return c

    def decide(self, f):
        """True / False / None"""
        if f.k == 'true':
            return True
        if f.k == 'false':
            return False
        if f in self.lits:
            return self.lits[f].k == 'true'
        if f.k == 'and':
            vs = [self.decide(x) for x in f.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
            return None
        if f.k == 'or':
            vs = [self.decide(x) for x in f.args]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
            return None
        if f.k == 'not':
            v = self.decide(f.args[0])
            return None if v is None else not v
        if f.k == 'cmp':
            if not self.facts and not _has_sign(f.args[1]):
                return None
            if f.args[0] == '=':
                if refutes(self.facts, [f]):
                    return False
                op, p = f.args
                if refutes(self.facts, [cmp0('<', p)]) and refutes(self.facts, [cmp0('<', -p)]):
                    return True
                return None
            if f.args[0] == '!=':
                v = self.decide(f_not(f))
                return None if v is None else not v
            if refutes(self.facts, [f_not(f)]):
                return True
            if refutes(self.facts, [f]):
                return False
        return None

    def infeasible(self):
        for f in self.facts:
            if f.k == 'or' and all(self.decide(x) is False for x in f.args):
                return True
        return refutes(self.facts, [])

    def simp(self, x):
        """simplify a term or formula under the facts"""
        if isinstance(x, Formula):
            v = self.decide(x)
            if v is not None:
                return TRUE if v else FALSE
            if x.k in ('and', 'or'):
                return (f_and if x.k == 'and' else f_or)(*[self.simp(y) for y in x.args])
            if x.k == 'cmp' and has_kind(x, 'ite'):
                return cmp0(x.args[0], self.simp(x.args[1]))
            return x
        if not has_kind(x, 'ite') and not has_kind(x, 'idiv') and not has_kind(x, 'imod') \
                and not has_kind(x, 'max') and not has_kind(x, 'min'):
            return x

        def fn(a, na):
            if a.kind == 'ite':
                v = self.decide(na[0])
                if v is True:
                    return na[1]
                if v is False:
                    return na[2]
                return ite(self.simp(na[0]) if na[0].k in ('and', 'or') else na[0], na[1], na[2])
            if a.kind == 'idiv':
                return self.divide(na[0], na[1])
            if a.kind == 'imod':
                q = self.divide(na[0], na[1])
                if q is not None:
                    return na[0] - q * na[1]
            if a.kind in ('max', 'min') and len(na) == 2:
                v = self.decide(le(na[0], na[1]))
                if v is not None:
                    return na[1] if v == (a.kind == 'max') else na[0]
            return None
        return subst(x, {}, dict(self.lits), fn)

    def divide(self, a, b):
        """quotient when the remainder is provably in [0,b)"""
        q = ZERO
        cand = idiv(a, b)
        # split: cand = q + idiv(r,b)
        for mo, c in cand.m.items():
            if len(mo) == 1 and mo[0][0].kind == 'idiv' and c == 1 and mo[0][1] == 1:
                r = mo[0][0].args[0]
                rest = cand - Poly({mo: c})
                if self.decide(le(ZERO, r)) and self.decide(lt(r, b)):
                    return rest
                # r = r1 + r2 with r1 multiple after shifting by one b
                if self.decide(le(b, r)) and self.decide(lt(r, b * 2)):
                    return rest + 1
                return None
        return cand


def _has_sign(p):
    return True


def _lin(p):
    d = {}
    c = Fraction(0)
    for mo, v in p.m.items():
        if mo == ():
            c = v
        else:
            d[mo] = v
    return d, c


_refc = {}


def refutes(facts, extra, depth=0):
    """True if facts and extra are contradictory (sound, incomplete)"""
    k = (frozenset(facts), frozenset(extra), depth)
    r = _refc.get(k)
    if r is None:
        r = _refc[k] = _refutes(facts, extra, depth)
    return r


def _refutes(facts, extra, depth=0):
    ineqs = []   # (dict, const, strict): sum + const (<|<=) 0
    eqs = []
    neqs = []
    ors = []

    def addf(f):
        if f.k == 'cmp':
            op, p = f.args
            if op == '=':
                eqs.append(p)
            elif op == '!=':
                neqs.append(p)
            else:
                ineqs.append((p, op == '<'))
        elif f.k == 'and':
            for x in f.args:
                addf(x)
        elif f.k == 'or':
            ors.append(f)
        elif f.k == 'false':
            ineqs.append((ONE, False))
    seen = set()
    for f in list(facts) + list(extra):
        if f not in seen:
            seen.add(f)
            addf(f)
            if f_not(f) in seen:
                return True
    goal_vars = set()
    for f in extra:
        for p in ([f.args[1]] if f.k == 'cmp' else []):
            goal_vars |= {mo for mo in p.m if mo}
    if _refute(ineqs, eqs, goal_vars if extra else None):
        return True
    # disequalities
    for p in neqs:
        if _refute(ineqs + [(p, True)], eqs, None) and _refute(ineqs + [(-p, True)], eqs, None):
            return True
    # unit propagation
    units, left = [], []
    for f in ors:
        if any(x in seen for x in f.args):
            continue
        xs = [x for x in f.args if f_not(x) not in seen]
        if not xs:
            return True
        if len(xs) == 1:
            units.append(xs[0])
        else:
            left.append((f, xs))
    if units:
        us = set(ors)
        return refutes([g for g in seen if g not in us or g in [l[0] for l in left]] + units, extra, depth)
    if depth < 2:
        left.sort(key=lambda l: len(l[1]))
        for f, xs in left[:4]:
            rest = [g for g in seen if g is not f]
            if all(refutes(rest, [x], depth + 1) for x in xs):
                return True
    return False


def _refute(ineqs, eqs, goal):
    rows = []
    allm = set()
    for p, s in ineqs:
        d, c = _lin(p)
        rows.append([d, c, s])
        allm |= set(d)
    eqr = []
    for p in eqs:
        d, c = _lin(p)
        eqr.append([d, c])
        allm |= set(d)
    # relevance: connected component of the goal
    if goal is not None and goal:
        comp = set(goal)
        changed = True
        while changed:
            changed = False
            for d, *_ in rows + eqr:
                ks = set(d)
                if ks & comp and not ks <= comp:
                    comp |= ks
                    changed = True
            # a product is related to facts on its factors
            for mo in list(comp):
                if len(mo) > 1:
                    for a, e in mo:
                        s = ((a, e),)
                        if s in allm and s not in comp:
                            comp.add(s)
                            changed = True
        rows = [r for r in rows if not r[0] or set(r[0]) <= comp]
        eqr = [r for r in eqr if not r[0] or set(r[0]) <= comp]
        allm &= comp
        allm |= set(goal)
    # product lemmas: multiply facts by nonnegative atoms
    nl = [mo for mo in allm if len(mo) > 1 or (mo and mo[0][1] != 1)]
    if nl:
        facs = set()
        for mo in nl:
            for i in range(len(mo)):
                a, e = mo[i]
                if a.nonneg:
                    rest = mo[:i] + mo[i + 1:] if e == 1 else None
                    facs.add(((a, Fraction(1)),))
                    if len(mo) > 2:
                        for j in range(i + 1, len(mo)):
                            if mo[j][0].nonneg and e == 1 and mo[j][1] == 1:
                                facs.add((mo[i], mo[j]))
        base = list(rows)
        for f in list(facs)[:12]:
            fp = Poly({f: Fraction(1)})
            for d, c, s in base:
                if len(d) > 4:
                    continue
                pr = Poly({**d, (): c} if c else dict(d)) * fp
                dd, cc = _lin(pr)
                if set(dd) - {f} <= allm | {f} and not set(dd) <= set(d):
                    rows.append([dd, cc, False])
                    allm |= set(dd)
            for d, c in list(eqr):
                if len(d) > 4:
                    continue
                pr = Poly({**d, (): c} if c else dict(d)) * fp
                dd, cc = _lin(pr)
                if set(dd) <= allm | {f}:
                    eqr.append([dd, cc])
    # sign facts
    for mo in allm:
        if all(a.nonneg or (not isinstance(e, Poly) and e.denominator == 1 and e % 2 == 0) for a, e in mo):
            rows.append([{mo: Fraction(-1)}, Fraction(0), False])
    # gaussian elimination of the equalities
    while eqr:
        d, c = eqr.pop()
        if not d:
            if c != 0:
                return True
            continue
        v = next(iter(sorted(d, key=lambda m: (len(m), str(m)))))
        cv = d[v]

        def elim(dd, cc):
            if v in dd:
                k = dd[v] / cv
                nd = dict(dd)
                for x, y in d.items():
                    n = nd.get(x, 0) - k * y
                    if n:
                        nd[x] = n
                    else:
                        nd.pop(x, None)
                return nd, cc - k * c
            return dd, cc
        eqr = [list(elim(dd, cc)) for dd, cc in eqr]
        rows = [[*elim(dd, cc), s] for dd, cc, s in rows]
    return _fm(rows)


def _fm(rows):
    def norm(rows):
        best = {}
        for d, c, s in rows:
            if not d:
                if c > 0 or (s and c >= 0):
                    return None
                continue
            k0 = min(d, key=lambda m: str([(a.id, str(e)) for a, e in m]))
            f = 1 / abs(d[k0])
            d2 = {k: v * f for k, v in d.items()}
            # integer tightening
            c2 = c * f
            key = frozenset(d2.items())
            if key not in best or (c2, s) > best[key][1:]:
                best[key] = (d2, c2, s)
        return [list(v) for v in best.values()]
    rows = norm(rows)
    if rows is None:
        return True
    while rows:
        cnt = {}
        for d, c, s in rows:
            for v, k in d.items():
                p, n = cnt.get(v, (0, 0))
                cnt[v] = (p + 1, n) if k > 0 else (p, n + 1)
        if not cnt:
            return False
        v = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = [r for r in rows if r[0].get(v, 0) > 0]
        neg = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if v not in r[0]]
        if len(pos) * len(neg) + len(rest) > 400:
            return False
        for a in pos:
            for b in neg:
                ka, kb = a[0][v], -b[0][v]
                d = {}
                for x, y in a[0].items():
                    d[x] = y / ka
                for x, y in b[0].items():
                    n = d.get(x, 0) + y / kb
                    if n:
                        d[x] = n
                    else:
                        d.pop(x, None)
                d.pop(v, None)
                rest.append([d, a[1] / ka + b[1] / kb, a[2] or b[2]])
        rows = norm(rest)
        if rows is None:
            return True
    return False


# ---------------------------------------------------------- comparison
def clear_den(p):
    """multiply by the polynomial denominators"""
    for _ in range(6):
        lows = {}
        for mo in p.m:
            for a, e in mo:
                if a.kind == 'P' and not isinstance(e, Poly) and e < 0 and e.denominator == 1:
                    lows[a] = min(lows.get(a, 0), e)
        if not lows:
            return p
        a, e = next(iter(lows.items()))
        p = p * _raise(a, -e)
    return p


def _raise(a, n):
    # represent P^n as a monomial with a P atom so that it cancels exactly
    class _M:
        pass
    return _PMono(a, n)


class _PMono(Poly):
    __slots__ = ()

    def __init__(self, a, n):
        Poly.__init__(self, {((a, n),): Fraction(1)})


def conds_of(p):
    out = []

    def leafs(f):
        if f.k in ('and', 'or', 'not'):
            for x in f.args:
                leafs(x)
        elif f.k in ('cmp', 'batom', 'opaque'):
            if not any(a.kind == 'bv' and a.args[0].startswith('#') for a in f.fv):
                if f not in out and f_not(f) not in out:
                    out.append(f)
    for a in atoms_of(p, lambda a: a.kind == 'ite'):
        leafs(a.args[0])
    return out


def equal(a, b, ctx=None, budget=None):
    """True, or (False, case facts, a', b'), or None when undecided"""
    ctx = ctx or Ctx()
    budget = budget if budget is not None else [400]
    budget[0] -= 1
    if budget[0] < 0:
        return None
    a, b = ctx.simp(a), ctx.simp(b)
    d = a - b
    if not d.m:
        return True
    cs = conds_of(d)
    if not cs:
        eqs = [f.args[1] for f in ctx.facts if f.k == 'cmp' and f.args[0] == '=']
        d2 = subst_eqs(d, eqs)
        d2 = clear_den(d2)
        if not d2.m:
            return True
        d2 = subst_eqs(d2, eqs)
        if not d2.m:
            return True
        if ctx.infeasible():
            return True
        if is_opaque(d2):
            return None
        return (False, list(ctx.facts), a, b)
    c = cs[0]
    res = True
    for f in (c, f_not(c)):
        if ctx.decide(f) is False:
            continue
        c2 = ctx.plus(f)
        r = equal(subst(a, {}, c2.lits), subst(b, {}, c2.lits), c2, budget)
        if isinstance(r, tuple):
            if c2.infeasible():
                continue
            if c.k == 'opaque' or is_opaque(c):
                res = None
                continue
            return r
        if r is None:
            res = None
    return res


def subst_eqs(d, eqs):
    env = {}
    for p in eqs:
        # solve for one atom occurring linearly
        best = None
        if env:
            p = subst(p, env)
        for mo, c in p.m.items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind in ('bv', 'sym', 'app', 'dom0', 'dom1', 'codom', 'bdim'):
                a = mo[0][0]
                rest = p - Poly({mo: c})
                if a in env or any(a is x for x in atoms_of(rest, lambda x: x is a)):
                    continue
                best = (a, rest * Poly.c(-1 / c))
                if a.kind == 'bv':
                    break
        if best:
            a, v = best
            v = subst(v, env)
            if atoms_of(v, lambda x: x is a):
                continue
            env = {k: subst(w, {a: v}) for k, w in env.items()}
            env[a] = v
    return subst(d, env) if env else d


def equivalent(f, g, ctx=None, budget=None):
    """boolean equivalence: True / (False, facts) / None"""
    ctx = ctx or Ctx()
    budget = budget if budget is not None else [600]
    budget[0] -= 1
    if budget[0] < 0:
        return None
    f, g = ctx.simp(f), ctx.simp(g)
    if f == g:
        return True
    leafs = []

    def go(x):
        if x.k in ('and', 'or', 'not'):
            for y in x.args:
                go(y)
        elif x.k in ('cmp', 'batom', 'opaque'):
            if has_kind(x, 'ite'):
                for c in conds_of(x.args[1] if x.k == 'cmp' else x):
                    if c not in leafs:
                        leafs.insert(0, c)
            if x not in leafs and f_not(x) not in leafs:
                leafs.append(x)
    go(f)
    go(g)
    if not leafs:
        if ctx.infeasible():
            return True
        return (False, list(ctx.facts))
    c = leafs[0]
    res = True
    for h in (c, f_not(c)):
        if ctx.decide(h) is False:
            continue
        c2 = ctx.plus(h)
        r = equivalent(subst(f, {}, c2.lits), subst(g, {}, c2.lits), c2, budget)
        if isinstance(r, tuple):
            if c2.infeasible():
                continue
            if is_opaque(c):
                res = None
                continue
            return r
        if r is None:
            res = None
    return res


# --------------------------------------------------------------- display
def show_atom(a):
    k = a.kind
    if k in ('sym', 'bv'):
        return str(a.args[0])
    if k == 'num':
        return str(a.args[0])
    if k == 'P':
        return '(%s)' % show(a.args[0])
    if k == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(show(x) for x in a.args[1:]))
    if k == 'ite':
        return 'if(%s; %s; %s)' % tuple(show(x) for x in a.args)
    return '%s(%s)' % (k, ', '.join(show(x) for x in a.args))


_shc = {}


def show(x):
    if isinstance(x, Poly):
        if not x.m:
            return '0'
        k = x
        if k in _shc:
            return _shc[k]
        parts = []
        for mo, c in sorted(x.m.items(), key=lambda t: [(show_atom(a), str(e)) for a, e in t[0]]):
            fs = [show_atom(a) + ('' if e == 1 else '^(%s)' % (show(e) if isinstance(e, Poly) else e)) for a, e in mo]
            if not fs:
                parts.append(str(c))
            elif c == 1:
                parts.append('*'.join(fs))
            elif c == -1:
                parts.append('-' + '*'.join(fs))
            else:
                parts.append('*'.join([str(c)] + fs))
        r = ' + '.join(parts)
        _shc[k] = r
        return r
    if isinstance(x, Formula):
        if x.k == 'cmp':
            return '%s %s 0' % (show(x.args[1]), x.args[0])
        if x.k in ('and', 'or'):
            return '(' + (' %s ' % x.k).join(show(y) for y in x.args) + ')'
        if x.k == 'not':
            return 'not ' + show(x.args[0])
        if x.k == 'batom':
            return '%s(%s)' % (x.args[0], ', '.join(show(y) for y in x.args[1:]))
        return x.k + ''.join(str(y) for y in x.args)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y) for y in x) + ')'
    return str(x)
