"""Bases by name, equality of bases, approximate comparison, random splines."""
from scen import *
from report import *
import rules_basis as B
import rules_gs as G
from rules_elem import wrap, meta_of
from rules_col import throws, accepted
from absfun import pick
from fractions import Fraction as Fr

BB = B.B


class MM(M):
    UNROLL = 24


# (label, class, constructor, dimension, parameters)
def specs():
    out = []
    for n in (2, 3, 4, 6, 7):
        out.append(('legendre', n, []))
    for xs in ([-1, 1], [-1, 0, 1], [-1, Fr(1, 2), 1], [-1, Fr(1, 3), Fr(3, 4)], [-1, Fr(1, 3), Fr(1, 2)], [Fr(-1, 2), Fr(1, 3), Fr(3, 4)],
               [-1, Fr(-1, 3), Fr(1, 3), 1], [-1, Fr(-1, 2), 1], [Fr(-3, 4), Fr(-1, 3), 1], [-1, Fr(-1, 4), Fr(1, 4), 1], [-1, Fr(-1, 3), Fr(1, 4), 1], [-1, Fr(1, 3), Fr(-1, 3), 1],
               [-1, Fr(1, 10**4), 1], [-1, Fr(-3, 4), Fr(-1, 4), Fr(1, 4), Fr(1, 2), 1], [-1, Fr(-1, 3), Fr(1, 3), Fr(9999, 10000)]):
        out.append(('lagrange', len(xs), xs))
    for al in (Fr(1, 2), Fr(1, 3), Fr(9, 10)):
        out.append(('basis0101', 6, [al]))
    return out


CLS = {'legendre': 'BasisLegendre', 'lagrange': 'BasisLagrange', 'basis0101': 'Basis0101'}


def build(m, sp):
    k, n, ps = sp
    if k == 'legendre':
        return B.legendre(m, n)
    if k == 'lagrange':
        return B.lagrange(m, [P(x) for x in ps])
    return B.b0101(m, P(ps[0]))


def label(sp):
    return '%s of dimension %d%s' % (sp[0], sp[1], ' with parameters (%s)' % ', '.join(str(x) for x in sp[2]) if sp[2] else '')


def check_equality(p, rep):
    """== holds between bases of the same family, dimension and parameters, and between no others"""
    fe = p.find(BB + 'Basis::operator==')
    fn = p.find(BB + 'Basis::operator!=')
    sps = specs()
    eps = 1 + Fr(1, 10**9)
    near = [(a, (a[0], a[1], [x * eps for x in a[2]])) for a in sps if a[2]]

    def one(rep, t):
        f, neg, a, b = t
        same = a == b or (a, b) in near or (b, a) in near
        ins = '%s %s %s' % (label(a), '!=' if neg else '==', label(b))

        def go():
            m = MM(p)
            rep.count('comparisons of bases')
            x, y = build(m, a), build(m, b)
            r = m.call(f, [y], x)
            r = tobool(m.load(r) if isinstance(r, LV) else r)
            rep.used(m)
            rep.eq('equality of bases', loc(f), ins, r, TRUE if same != neg else FALSE, ctx=CTX[0])
        wrap(rep, 'equality of bases', loc(f), ins, go)
    parallel(rep, [(f, neg, a, b) for fs, neg in ((fe, False), (fn, True)) for f in fs for a, b in [(a, b) for a in sps for b in sps if (a[0] == b[0] and (a[0] != 'lagrange' or abs(a[1] - b[1]) < 2)) or (a[1] == b[1] and (a[1] > 3 or a[2][1:] in ([], [0, 1], [1]))) or (a[1], b[1]) in ((2, 6), (6, 2), (3, 4), (4, 3))] + near + [(b, a) for a, b in near]], one)


def unbox(m, r):
    if isinstance(r, LV):
        r = m.load(r)
    if isinstance(r, Box):
        if r.v is None:
            raise NullDeref('null basis')
        return m.temp(r.v)
    if isinstance(r, Ptr):
        return r.lv
    raise Unsupported('result of the factory')


def observe(m, cls, n, o, ps):
    p = m.prog
    out = [('dimension', topoly(m.load(m.call(virt(p, BB + cls, 'get_dim'), [], o))))]
    q = m.load(m.call(virt(p, BB + cls, 'get_parameters'), [], o))
    out.append(('number of parameters', topoly(q.rows)))
    out += [('parameter %d' % i, topoly(q.lin(P(i)))) for i in range(len(ps))]
    s = sym('s')
    m.fact(lt(P(Fr(1, 2)), s)), m.fact(lt(s, P(Fr(5, 8))))
    tau = sym('tau', nonneg=True)
    m.fact(lt(ZERO, tau))
    out += [('function %d' % i, x) for i, x in enumerate(B.row(m, cls, o, 'eval_on_window', n, [s, tau])[1])]
    return out


def pargs(m, f, ps):
    ts = m.prog.ty(f['pt'][-1])['s']
    if 'vector' in ts and 'Eigen' not in ts:
        return m.temp(Seq([('one', P(x)) for x in ps]))
    return m.temp(Arr(P(len(ps)), ONE, lambda i, j: pick(i, [P(x) for x in ps]) if ps else ZERO))


def check_factory(p, rep):
    """get_basis(name, dimension, parameters) and the get functions of the classes"""
    fs = [f for f in p.find(BB + 'get_basis') if len(f['pt']) == 3]
    gs = [(f, c) for c in CLS.values() for f in p.find(BB + c + '::get')]

    def compare_(rep, m, f, ins, o, sp):
        v = m.load(o)
        k, n, ps = sp
        rep.ok(isinstance(v, Rec) and v.cls == BB + CLS[k], 'basis by name', loc(f), ins + ', class', 'an object of class %s' % getattr(v, 'cls', '?'))
        if not (isinstance(v, Rec) and v.cls == BB + CLS[k]):
            return
        got = observe(m, CLS[k], n, o, ps)
        rep.used(m)
        nm = m.load(m.call(virt(p, BB + CLS[k], 'get_name'), [], o))
        rep.ok(isinstance(nm, Str) and nm.s == k, 'basis by name', loc(f), ins + ', name', 'the name is %r' % getattr(nm, 's', None))
        ctx = CTX[0]
        m2 = MM(p)
        want = observe(m2, CLS[k], n, build(m2, sp), ps)
        for (l, g), (_, w) in zip(got, want):
            rep.eq('basis by name', loc(f), '%s, %s' % (ins, l), g, w, ctx=ctx)

    def one(rep, t):
        if t[0] == 'name':
            _, f, nm, dim, ps, sp, exact = t
            ins = 'get_basis("%s", %d, (%s)) with parameters as %s' % (nm, dim, ', '.join(map(str, ps)), p.ty(f['pt'][-1])['s'][:30])

            def go():
                m = MM(p)
                B.gll_handlers(m)
                rep.count('bases by name')
                try:
                    r = m.call(f, [m.temp(Str(nm)), P(dim), pargs(m, f, ps)])
                except Dead:
                    return throws(rep, m, f, ins, sp is None)
                if sp is None:
                    return accepted(rep, m, f, ins)
                compare_(rep, m, f, ins, unbox(m, r), sp)
            wrap(rep, 'basis by name', loc(f), ins, go)
        else:
            _, f, cls, sp = t
            ins = '%s::get for %s' % (cls, label(sp))

            def go():
                m = MM(p)
                B.gll_handlers(m)
                rep.count('bases by class')
                a = P(sp[1]) if sp[0] == 'legendre' else P(sp[2][0]) if sp[0] == 'basis0101' else pargs(m, f, sp[2])
                compare_(rep, m, f, ins, unbox(m, m.call(f, [a])), sp)
            wrap(rep, 'basis by name', loc(f), ins, go)
    jobs = []
    for f in fs:
        for sp in specs():
            jobs.append(('name', f, sp[0], sp[1], sp[2], sp, True))
        for nm in ('', 'Legendre', 'legendr', 'legendre ', 'lagrange2', 'basis', 'basis0102', 'x'):
            jobs.append(('name', f, nm, 3, [], None, False))
            jobs.append(('name', f, nm, 3, [Fr(1, 2)], None, False))
        jobs.append(('name', f, 'basis0101', 6, [], None, False))
        jobs.append(('name', f, 'basis0101', 6, [Fr(1, 2), Fr(1, 3)], None, False))
        # the parameters of a Legendre basis are not looked at
        jobs.append(('name', f, 'legendre', 4, [Fr(1, 2)], ('legendre', 4, []), True))
    for f, c in gs:
        for sp in specs():
            if CLS[sp[0]] == c:
                jobs.append(('get', f, c, sp))
    parallel(rep, jobs, one)


def check_vector_ctor(p, rep):
    """a Lagrange basis from a std::vector of nodes is the one from the Eigen vector"""
    fs = [f for f in p.find(BB + 'BasisLagrange::BasisLagrange') if len(f['pt']) == 1 and 'std::vector' in p.ty(f['pt'][0])['s']]
    for f in fs:
        for sp in specs():
            if sp[0] != 'lagrange':
                continue
            ins = 'from a std::vector: ' + label(sp)

            def go():
                m = MM(p)
                B.gll_handlers(m)
                rep.count('constructions')
                o = m.new(BB + 'BasisLagrange', f, [m.temp(Seq([('one', P(x)) for x in sp[2]]))])
                got = observe(m, 'BasisLagrange', sp[1], o, sp[2])
                rep.used(m)
                ctx = CTX[0]
                m2 = MM(p)
                want = observe(m2, 'BasisLagrange', sp[1], build(m2, sp), sp[2])
                for (l, g), (_, w) in zip(got, want):
                    rep.eq('basis by name', loc(f), '%s, %s' % (ins, l), g, w, ctx=ctx)
            wrap(rep, 'basis by name', loc(f), ins, go)


# ------------------------------------------------------- approximate comparison
TL = 'gsplines::tools::'


def fmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(lt(r, x), x, r)
    return r


def pabs(x):
    return Poly.at(atom('abs', P(x)))


def spec_eq(err, l, r, tol):
    """absolute below the tolerance, relative to both sides above it"""
    small = T.f_or(lt(l, tol), lt(r, tol))
    return T.f_or(f_and(small, lt(err, tol)), f_and(f_not(small), lt(err, l * tol), lt(err, r * tol)))


SIZES = [Fr(0), Fr(1), Fr(-1), Fr(2), Fr(-3), Fr(1, 10**9), Fr(-1, 10**9), Fr(1, 10**4), Fr(10**6), Fr(10**6 + 1), Fr(1000001, 1000000), Fr(999, 1000), Fr(101, 100), Fr(9, 5), Fr(7, 10**4), Fr(-7, 10**4), Fr(12, 10**4), Fr(3, 2), Fr(3, 100), Fr(-3, 100), Fr(7, 100)]
TOLS = [Fr(1, 1000), Fr(1, 10**6), Fr(1, 20), Fr(1, 2), Fr(9, 10)]


def holds(a, b, tol):
    err, l, r = abs(a - b), abs(a), abs(b)
    if l < tol or r < tol:
        return err < tol
    return err < l * tol and err < r * tol


def margin(a, b, tol):
    """far enough from the threshold that rounding does not matter"""
    err, l, r = abs(a - b), abs(a), abs(b)
    ts = [tol] if l < tol or r < tol else [l * tol, r * tol]
    return all(abs(err - t) > t / 1000 for t in ts) and abs(l - tol) > tol / 1000 and abs(r - tol) > tol / 1000


def matrices():
    out = [(1, 1, [Fr(1)]), (1, 1, [Fr(1) + Fr(1, 10**8)]), (2, 1, [Fr(1), Fr(2)]), (1, 2, [Fr(1), Fr(2)]), (2, 1, [Fr(1), Fr(2) + Fr(1, 10**8)]),
           (2, 1, [Fr(1) - Fr(1, 100), Fr(2)]), (2, 1, [Fr(-1), Fr(2)]), (2, 1, [Fr(1), Fr(-2)]), (2, 1, [Fr(0), Fr(0)]), (2, 1, [Fr(1, 10**9), Fr(0)]), (3, 1, [Fr(1), Fr(2), Fr(0)]),
           (2, 2, [Fr(1), Fr(2), Fr(3), Fr(4)]), (2, 2, [Fr(1), Fr(2), Fr(3), Fr(4) + Fr(1, 10**9)]), (2, 2, [Fr(1), Fr(2), Fr(3) + Fr(1, 50), Fr(4)]), (4, 1, [Fr(1), Fr(2), Fr(3), Fr(4)]),
           (1, 4, [Fr(1), Fr(2), Fr(3), Fr(4)]), (2, 2, [Fr(-1), Fr(-2), Fr(-3), Fr(-4)]), (2, 2, [Fr(10**5), Fr(0), Fr(0), Fr(1)]), (2, 2, [Fr(10**5), Fr(0), Fr(1, 100), Fr(1)]),
           (1, 1, [Fr(7, 10**4)]), (1, 1, [Fr(-7, 10**4)]), (1, 1, [Fr(12, 10**4)]), (1, 1, [Fr(9, 5)]), (2, 1, [Fr(2), Fr(6, 5)]), (2, 1, [Fr(0), Fr(9, 5)]), (2, 1, [Fr(11, 10), Fr(-3, 10)])]
    return out


EMPTY = [(0, 0, []), (0, 1, []), (2, 0, [])]


def mat(m, t):
    r, c, xs = t
    return m.temp(Arr(P(r), P(c), lambda i, j: pick(P(i) + P(j) * P(r), [P(x) for x in xs])))


def mshow(t):
    return '%dx%d [%s]' % (t[0], t[1], ', '.join('%g' % float(x) for x in t[2]))


def check_approx(p, rep):
    """approx_equal and approx_zero"""
    fs = [f for f in p.find(TL + 'approx_equal') if len(f['pt']) == 3]
    zs = [f for f in p.find(TL + 'approx_zero') if len(f['pt']) == 2]
    kind = lambda f: 'matrix' if 'Matrix' in p.ty(f['pt'][0])['s'] or 'Matrix' in p.ty(f['pt'][0])['c'] else 'number' if p.ty(f['pt'][0])['c'] == 'double' else 'spline'

    def ask(m, f, args):
        r = m.call(f, args)
        return tobool(m.load(r) if isinstance(r, LV) else r)

    def one(rep, t):
        what = t[0]
        if what == 'symbolic':
            f = t[1]

            def go():
                m = MM(p)
                a, b, tol = sym('a'), sym('b'), sym('tol', nonneg=True)
                m.fact(lt(ZERO, tol))
                r = ask(m, f, [a, b, tol])
                rep.used(m)
                rep.count('comparisons')
                rep.eq('approximate equality of numbers', loc(f), 'any two numbers and any positive tolerance', r, spec_eq(pabs(a - b), pabs(a), pabs(b), tol), ctx=CTX[0])
            wrap(rep, 'approximate equality of numbers', loc(f), 'any two numbers', go)
        elif what == 'numbers':
            _, f, a, tol = t
            for b in SIZES:
                if not margin(a, b, tol):
                    continue
                ins = '%g and %g with tolerance %g' % (a, b, tol)

                def go():
                    m = MM(p)
                    rep.count('comparisons')
                    r = ask(m, f, [P(a), P(b), P(tol)])
                    rep.used(m)
                    rep.eq('approximate equality of numbers', loc(f), ins, r, TRUE if holds(a, b, tol) else FALSE, ctx=CTX[0])
                wrap(rep, 'approximate equality of numbers', loc(f), ins, go)
        elif what == 'matrices':
            _, f, a, tol = t
            for b in matrices() + EMPTY:
                same = a[:2] == b[:2]
                err = max([abs(x - y) for x, y in zip(a[2], b[2])] or [0])
                l, r_ = max([0] + [abs(x) for x in a[2]]), max([0] + [abs(x) for x in b[2]])
                if same and any(abs(x - y) <= y / 1000 for x, y in ((err, tol), (l, tol), (r_, tol), (err, l * tol), (err, r_ * tol)) if y):
                    continue
                want = same and (err < tol if l < tol or r_ < tol else err < l * tol and err < r_ * tol)
                ins = '%s and %s with tolerance %g' % (mshow(a), mshow(b), tol)

                def go():
                    m = MM(p)
                    rep.count('comparisons')
                    r = ask(m, f, [mat(m, a), mat(m, b), P(tol)])
                    rep.used(m)
                    rep.eq('approximate equality of matrices', loc(f), ins, r, TRUE if want else FALSE, ctx=CTX[0])
                wrap(rep, 'approximate equality of matrices', loc(f), ins, go)
        elif what == 'zero':
            _, f, k = t
            tol = Fr(1, 1000)
            for a in (matrices() + EMPTY if k == 'matrix' else SIZES):
                ins = 'zero test of %s' % (mshow(a) if k == 'matrix' else '%g' % a)
                want = k != 'matrix' or a[2] != []
                want = want and (max(map(abs, a[2])) if k == 'matrix' else abs(a)) < tol

                def go():
                    m = MM(p)
                    rep.count('comparisons')
                    r = ask(m, f, [mat(m, a) if k == 'matrix' else P(a), P(tol)])
                    rep.used(m)
                    rep.eq('approximate zero', loc(f), ins, r, TRUE if want else FALSE, ctx=CTX[0])
                wrap(rep, 'approximate zero', loc(f), ins, go)
        elif what == 'splines':
            _, f, desc, kw, same = t

            def go():
                m = MM(p)
                bas, bk = G.basis(m)
                m.bconst = {bk: 2}
                b2, k2 = (G.basis(m, 'C') if kw.get('b') else (bas, bk))
                m.bconst[k2] = 2

                def mk(ta, s, b, cf, cd=1):
                    tbl = lambda xs: m.temp(Arr(P(len(xs)), ONE, lambda i, j: pick(i, [P(x) for x in xs])))
                    return m.new(G.GS, G.gs_ctor(p), [pair(P(s), P(s + sum(ta))), P(cd), P(len(ta)), b, tbl(cf), tbl(ta), m.temp(Str())])
                base = (Fr(1), Fr(2))
                a = mk(base, Fr(1), bas, kw.get('ca', [Fr(2 + i) for i in range(4)]))
                b = mk(kw.get('tb', base), kw.get('s', Fr(1)), b2, kw.get('cb', [Fr(2 + i) for i in range(4)]), kw.get('cdb', 1))
                rep.count('comparisons')
                for x, y, o in ((a, b, ''), (b, a, ', exchanged')):
                    r = ask(m, f, [x, y, P(Fr(1, 1000))])
                    rep.eq('approximate equality of splines', loc(f), desc + o, r, TRUE if same else FALSE, ctx=CTX[0])
                rep.used(m)
            wrap(rep, 'approximate equality of splines', loc(f), desc, go)
        elif what == 'zero spline':
            _, f, cf = t
            desc = 'zero test of a spline with coefficients %s' % ', '.join('%g' % float(x) for x in cf)

            def go():
                m = MM(p)
                bas, bk = G.basis(m)
                m.bconst = {bk: 2}
                tbl = lambda xs: m.temp(Arr(P(len(xs)), ONE, lambda i, j: pick(i, [P(x) for x in xs])))
                a = m.new(G.GS, G.gs_ctor(p), [pair(ZERO, P(2)), ONE, P(2), bas, tbl(cf), tbl([ONE, ONE]), m.temp(Str())])
                rep.count('comparisons')
                r = ask(m, f, [a, P(Fr(1, 1000))])
                rep.used(m)
                rep.eq('approximate zero', loc(f), desc, r, TRUE if max(map(abs, cf)) < Fr(1, 1000) else FALSE, ctx=CTX[0])
            wrap(rep, 'approximate zero', loc(f), desc, go)
    jobs = []
    tiny = Fr(1, 10**7)
    c0 = [Fr(2 + i) for i in range(4)]
    bump = lambda i, d: [x + (d if q == i else 0) for q, x in enumerate(c0)]
    CASES = [('identical splines', {}, True), ('splines differing by rounding in a coefficient', {'cb': bump(2, tiny)}, True), ('splines differing by rounding in the lengths', {'tb': (1 + tiny, 2 - tiny)}, True),
             ('splines differing by rounding in the start', {'s': 1 + tiny}, True), ('splines with different starts', {'s': Fr(2)}, False), ('splines with different lengths', {'tb': (Fr(2), Fr(1))}, False),
             ('splines with a different last length', {'tb': (Fr(1), Fr(3))}, False), ('splines with different bases', {'b': 1}, False), ('splines with opposite coefficients', {'cb': [-x for x in c0]}, False),
             ('splines with different numbers of intervals', {'tb': (Fr(1),), 'cb': c0[:2]}, False), ('splines with different numbers of intervals and components', {'tb': (Fr(3),), 'cdb': 2}, False)]
    CASES += [('splines differing in coefficient %d' % i, {'cb': bump(i, Fr(1, 10))}, False) for i in range(4)]
    for f in fs:
        k = kind(f)
        if k == 'spline':
            jobs += [('splines', f) + c for c in CASES]
        if k == 'number':
            jobs.append(('symbolic', f))
            jobs += [('numbers', f, a, tol) for a in SIZES for tol in TOLS]
        elif k == 'matrix':
            jobs += [('matrices', f, a, tol) for a in matrices() + EMPTY for tol in (Fr(1, 1000), Fr(1, 2))]
    for f in zs:
        if kind(f) != 'spline':
            jobs.append(('zero', f, kind(f)))
        else:
            jobs += [('zero spline', f, [Fr(1, 10**6) * (-1)**i * i + (Fr(v) if i == q else 0) for i in range(4)]) for q, v in ((0, 0), (0, 1), (1, -1), (3, 2), (2, Fr(-1, 100)))]
    parallel(rep, jobs, one)
