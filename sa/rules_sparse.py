"""Matrices acting on the coefficients of a spline: continuity equations and derivatives."""
from scen import *
from report import *
import rules_basis as B
from rules_elem import wrap
from absfun import pick
from fractions import Fraction as Fr

BB = B.B
S, sa = B.S, B.sa


class MM(M):
    UNROLL = 64


def bases(rep):
    out = [('BasisLegendre', 2, lambda m: B.legendre(m, 2), B.lg(2), 'Legendre basis of dimension 2'),
           ('BasisLegendre', 3, lambda m: B.legendre(m, 3), B.lg(3), 'Legendre basis of dimension 3'),
           ('BasisLegendre', 4, lambda m: B.legendre(m, 4), B.lg(4), 'Legendre basis of dimension 4'),
           ('BasisLagrange', 2, lambda m: B.lagrange(m, [P(-1), P(1)]), B.lagr([-1, 1]), 'Lagrange basis at (-1, 1)'),
           ('BasisLagrange', 3, lambda m: B.lagrange(m, [P(-1), P(0), P(1)]), B.lagr([-1, 0, 1]), 'Lagrange basis at (-1, 0, 1)')]
    return out


def lens(n, k=0):
    return [P(Fr(2 * i + 1 + k, 2 + i)) for i in range(n)]


def args(m, n, cd, d, ls):
    return [P(n), P(cd), P(d), m.temp(Arr(P(n), ONE, lambda i, j: pick(i, ls)))]


def at(x, v):
    return T.subst(x, {sa: P(v)})


def histories(m, f, o, n, cd, d, h):
    """calls made before on the same basis"""
    if 'other lengths' in h:
        m.call(f, args(m, n, cd, d, lens(n, 3)), o)
    if 'other sizes' in h:
        m.call(f, args(m, n + 1, cd, d, lens(n + 1, 1)), o)
        m.call(f, args(m, n, cd + 1, d, lens(n, 2)), o)
    if 'other orders' in h:
        m.call(f, args(m, n, cd, d + 1, lens(n, 2)), o)
        if d:
            m.call(f, args(m, n, cd, d - 1, lens(n, 1)), o)
    if 'same call' in h:
        m.call(f, args(m, n, cd, d, lens(n)), o)
        m.call(f, args(m, n, cd, d, lens(n)), o)
    if 'between other lengths' in h:
        m.call(f, args(m, n, cd, d, lens(n)), o)
        m.call(f, args(m, n, cd, d, lens(n, 4)), o)
    if 'exchanged sizes' in h:
        m.call(f, args(m, cd + 1, n, d, lens(cd + 1, 1)), o)


HIST = ('', 'other lengths before', 'other sizes before')
MORE = HIST + ('other orders before', 'the same call before', 'between other lengths', 'exchanged sizes before')


def check_continuity(p, rep):
    """row (order, breakpoint, component): derivative at the end of one interval minus derivative at the start of the next"""
    f = virt(p, BB + 'BasisLegendre', 'continuity_matrix')

    def one(rep, t):
        (cls, dim, mk, fs, nm), n, cd, d, h = t
        ins0 = '%s, %d intervals, %d components, derivatives up to order %d%s' % (nm, n, cd, d, ', ' + h if h else '')

        def go():
            m = MM(p)
            o = mk(m)
            rep.count('continuity matrices')
            histories(m, f, o, n, cd, d, h)
            a = m.load(m.call(f, args(m, n, cd, d, lens(n)), o))
            rep.used(m)
            R, C = (n - 1) * cd * (d + 1), n * cd * dim
            rep.eq('continuity matrix', loc(f), ins0 + ', rows', a.rows, P(R), ctx=CTX[0])
            rep.eq('continuity matrix', loc(f), ins0 + ', columns', a.cols, P(C), ctx=CTX[0])
            ls = lens(n)
            for r in range(R):
                k, rest = divmod(r, (n - 1) * cd)
                i, c = divmod(rest, cd)
                for q in range(C):
                    iv, rest = divmod(q, cd * dim)
                    c2, b = divmod(rest, dim)
                    w = ZERO
                    if c2 == c and iv in (i, i + 1):
                        w = at(B.diffn(fs[b], sa, k), 1 if iv == i else -1)
                        for _ in range(k):
                            w = w * P(2) * T.inv(ls[iv])
                        w = w if iv == i else -w
                    rep.eq('continuity matrix', loc(f), '%s, entry (%d,%d)' % (ins0, r, q), topoly(a.at(P(r), P(q))), w, ctx=CTX[0])
        wrap(rep, 'continuity matrix', loc(f), ins0, go)
    parallel(rep, [(b, n, cd, d, h) for b in bases(rep) for n, cd in ((2, 1), (2, 2), (3, 1), (1, 2)) for d in (0, 1, 2) for h in (MORE if n * cd < 3 else HIST)] +
             [(b, n, cd, d, '') for b in bases(rep) for n, cd, d in ((4, 1, 1), (3, 2, 1), (2, 3, 1), (2, 1, 4), (5, 1, 0))], one)


def check_derivative(p, rep):
    """column j of block (interval, component): the coefficients of the derivative of basis function j"""
    f = virt(p, BB + 'BasisLegendre', 'gspline_derivative_matrix')

    def one(rep, t):
        (cls, dim, mk, fs, nm), n, cd, d, h = t
        ins0 = '%s, %d intervals, %d components, order %d%s' % (nm, n, cd, d, ', ' + h if h else '')

        def go():
            m = MM(p)
            o = mk(m)
            rep.count('derivative matrices')
            histories(m, f, o, n, cd, d, h)
            a = m.load(m.call(f, args(m, n, cd, d, lens(n)), o))
            rep.used(m)
            N = n * cd * dim
            rep.eq('derivative matrix of a spline', loc(f), ins0 + ', rows', a.rows, P(N), ctx=CTX[0])
            rep.eq('derivative matrix of a spline', loc(f), ins0 + ', columns', a.cols, P(N), ctx=CTX[0])
            ls = lens(n)
            for q in range(N):
                bl, j = divmod(q, dim)
                iv = bl // cd
                w = B.diffn(fs[j], sa, d)
                for _ in range(d):
                    w = w * P(2) * T.inv(ls[iv])
                v = ZERO
                for i in range(dim):
                    v = v + topoly(a.at(P(bl * dim + i), P(q))) * fs[i]
                rep.eq('derivative matrix of a spline', loc(f), '%s, column %d' % (ins0, q), v, w, ctx=CTX[0])
                for r in range(N):
                    if r // dim != bl:
                        rep.eq('derivative matrix of a spline', loc(f), '%s, entry (%d,%d)' % (ins0, r, q), topoly(a.at(P(r), P(q))), ZERO, ctx=CTX[0])
        wrap(rep, 'derivative matrix of a spline', loc(f), ins0, go)
    parallel(rep, [(b, n, cd, d, h) for b in bases(rep) for n, cd in ((1, 1), (1, 2), (2, 1)) for d in (0, 1, 2, 3) for h in (MORE if n * cd == 2 and d < 3 else HIST)] +
             [(b, n, cd, d, '') for b in bases(rep) for n, cd, d in ((2, 2, 1), (2, 2, 2), (3, 1, 1), (3, 2, 1), (2, 3, 1), (1, 1, 4), (4, 1, 1))], one)
