"""Splines over the concrete bases: the spline code and the basis code analysed together."""
from scen import *
from report import *
import rules_gs as G
import rules_basis as B
from rules_elem import wrap, meta_of
from rules_gs import GS, GB, coef, numspline, out_arr
from absfun import pick
import model
from fractions import Fraction as Fr

S = B.S
TAUS = (Fr(1), Fr(3), Fr(1, 2))
T0 = Fr(1, 2)


class Kind:
    def __init__(self, name, dim, make, funs, spans, exact):
        self.name, self.dim, self.make, self.funs, self.spans, self.exact = name, dim, make, funs, spans, exact


def kinds(rep):
    out = []
    for d in (2, 3, 4, 5) if rep.tier == 'quick' else (2, 3, 4, 5, 6, 7):
        out.append(Kind('Legendre basis of dimension %d' % d, d, lambda m, d=d: B.legendre(m, d), lambda tau, d=d: B.lg(d),
                        [(Fr(-1), Fr(1))], 'rat'))
    for xs in ([-1, 1], [-1, 0, 1], [-1, Fr(-1, 3), Fr(1, 2), 1]):
        out.append(Kind('Lagrange basis at %s' % B.xs_name(xs), len(xs), lambda m, xs=xs: B.lagrange(m, xs), lambda tau, xs=xs: B.lagr(xs), B.spans(xs), 'rat'))
    out.append(Kind('Basis0101', 6, lambda m: B.b0101(m), lambda tau: B.f0101(P(tau) * B.KK * S), [(Fr(-1), Fr(1))], 'trig'))
    return out


def dfuns(kind, tau, d):
    """d-th time derivative of the basis functions on an interval of that length, in s"""
    r = []
    for f in kind.funs(tau):
        f = B.diffn(f, B.sa, d)
        for _ in range(d):
            f = f * P(Fr(2) / tau)
        r.append(f)
    return r


def same(rep, kind, rule, where, ins, got, want):
    if kind.exact == 'trig':
        B.eq0(rep, rule, where, ins, got, want)
    else:
        B.eqr(rep, rule, where, ins, got, want, CTX[0])


def left(k):
    return T0 + sum(TAUS[:k], Fr(0))


def inside(kind, k):
    """intervals of t inside interval k that avoid the nodes"""
    for lo, hi in kind.spans:
        yield left(k) + (lo + 1) / 2 * TAUS[k], left(k) + (hi + 1) / 2 * TAUS[k]


def values(m, lv, t, cd, cls=GB):
    o = m.temp(out_arr(1, P(cd)))
    m.call(virt(m.prog, cls, 'value_impl'), [m.temp(Arr(ONE, ONE, lambda a, b: t)), o], lv)
    return m.load(o)


def make(m, kind, cd):
    b = kind.make(m)
    n = len(TAUS)
    co = m.temp(Arr(P(n * cd * kind.dim), ONE, lambda i, j: coef('A', i)))
    ta = m.temp(Arr(P(n), ONE, lambda i, j: pick(i, [P(x) for x in TAUS])))
    d = pair(P(T0), P(T0 + sum(TAUS)))
    return m.new(GS, G.gs_ctor(m.prog), [d, P(cd), P(n), b, co, ta, m.temp(Str())])


def want(kind, k, t, c, cd, d):
    s = P(2) * (t - P(left(k))) * P(1 / TAUS[k]) - ONE
    r = ZERO
    for j, f in enumerate(dfuns(kind, TAUS[k], d)):
        r = r + coef('A', P(k * kind.dim * cd + kind.dim * c + j)) * T.subst(f, {B.sa: s})
    return r


def check_deriv_bases(p, rep):
    fs = [f for f in G.helper(p, 'deriv_impl') if 'GSpline>' in f['q']]

    def one(rep, task):
        f, kind, d, cd = task
        ins = '%s, derivative of order %d, %d components' % (kind.name, d, cd)

        def go():
            m = M(p)
            for k in range(len(TAUS)):
                for lo, hi in inside(kind, k):
                    sv = CTX[0]
                    m = M(p)
                    g = make(m, kind, cd)
                    r = m.call(f, [P(d)], g)
                    lv = r.lv if isinstance(r, Ptr) else m.temp(r)
                    t = sym('t')
                    m.fact(lt(P(lo), t))
                    m.fact(lt(t, P(hi)))
                    v = values(m, lv, t, cd)
                    rep.count('derivative cases over concrete bases')
                    rep.used(m)
                    for c in range(cd):
                        same(rep, kind, 'derivative value', loc(f), '%s, interval %d, component %d, t in (%s, %s)' % (ins, k, c, lo, hi),
                             v.at(ZERO, P(c)), want(kind, k, t, c, cd, d))
        wrap(rep, 'derivative value', loc(f), ins, go)
    tasks = []
    for f in fs:
        for kind in kinds(rep):
            for d in range(0, kind.dim + 2):
                for cd in (1, 2) if kind.dim < 6 and d < 2 else (1,):
                    tasks.append((f, kind, d, cd))
    parallel(rep, tasks, one)


def sample_equal(got, want, facts, n=8):
    """two closed forms agree at n random interpretations (analytic functions that differ do so almost everywhere)"""
    if model.opaque_atoms(got) or model.opaque_atoms(want):
        return None
    s, seen, wrong, near = 0, 0, [], 0
    while seen < n and s < 4000:
        m, s = model.find_model(facts, None, 4000 - s, s)
        if m is None:
            break
        try:
            a, b = m.poly(got, {}), m.poly(want, {})
        except (model.Unk, OverflowError, ZeroDivisionError):
            continue
        d, sc = abs(a - b), 1 + abs(a) + abs(b)
        if d > 1e-6 * sc:
            wrong.append((False, a, b))
            if len(wrong) == 2:
                return wrong[0]
        elif d > 1e-9 * sc:
            near += 1
        seen += 1
    return True if seen == n and not wrong and not near else None


def check_scale_bases(p, rep):
    fs = [f for f in G.helper(p, 'linear_scaling_new_execution_time') if 'GSpline>' in f['clsfull']]

    def one(rep, task):
        f, kind, cd, fac = task
        ins = '%s, %d components, duration multiplied by %s' % (kind.name, cd, fac)

        def go():
            for k in range(len(TAUS)):
                for lo, hi in list(inside(kind, k))[:2]:
                    m = M(p)
                    if kind.exact == 'trig':
                        m.fact(lt(ZERO, B.AL))
                        m.fact(lt(B.AL, ONE))
                    g = make(m, kind, cd)
                    h = m.temp(m.load(m.call(f, [P(sum(TAUS) * fac)], g)))
                    u = sym('t')
                    m.fact(lt(P(lo), u))
                    m.fact(lt(u, P(hi)))
                    v = values(m, h, P(T0) + (u - P(T0)) * P(fac), cd)
                    w = values(m, g, u, cd)
                    rep.count('scaling cases over concrete bases')
                    rep.used(m)
                    for c in range(cd):
                        i2 = '%s, interval %d, component %d' % (ins, k, c)
                        if kind.exact == 'rat':
                            B.eqr(rep, 'scaled value', loc(f), i2, v.at(ZERO, P(c)), w.at(ZERO, P(c)), CTX[0])
                            continue
                        r = sample_equal(v.at(ZERO, P(c)), w.at(ZERO, P(c)), CTX[0].facts)
                        rep.add('unk' if r is None else 'ok' if r is True else 'bad', 'scaled value', loc(f), i2,
                                '' if r in (None, True) else 'takes the value %.9g instead of %.9g' % r[1:])
        wrap(rep, 'scaled value', loc(f), ins, go)
    parallel(rep, [(f, k, cd, fac) for f in fs for k in kinds(rep) for cd in (1, 2) for fac in (Fr(1, 3), Fr(2))], one)
