"""The concrete bases: values, derivatives, derivative matrices, tau-derivatives, Gram matrices."""
from scen import *
from report import *
from rules_elem import wrap
from absfun import pick
from values import topoly
import functools

B = 'gsplines::basis::'
S = sym('s')
TAU = sym('tau')
sa = next(iter(S.m))[0][0]
ta = next(iter(TAU.m))[0][0]
Fr = T.Fraction


class M(M):
    UNROLL = 24


# --------------------------------------------------------- term calculus
def diff(x, v):
    """derivative of a term with respect to the symbol v"""
    x = P(x)
    out = ZERO
    for mo, c in x.m.items():
        for q, (a, e) in enumerate(mo):
            da = diff_atom(a, v)
            if da == ZERO:
                continue
            if isinstance(e, Poly):
                raise Unsupported('symbolic exponent')
            rest = P(c) * e
            for r, (b, eb) in enumerate(mo):
                ex = eb - 1 if r == q else eb
                if ex != 0:
                    rest = rest * Poly.at(b, ex)
            out = out + rest * da
    return out


def diff_atom(a, v):
    if a is v or a == v:
        return ONE
    if a.kind in ('sym', 'app', 'bv', 'uninit', 'bas'):
        return ZERO
    k = a.kind
    if k in ('exp', 'sin', 'cos', 'P', 'abs', 'ite') or (len(a.args) == 1 and isinstance(a.args[0], Poly)):
        if k == 'ite':
            return ite(a.args[0], diff(a.args[1], v), diff(a.args[2], v))
        y = a.args[0]
        dy = diff(y, v)
        if dy == ZERO:
            return ZERO
        if k == 'exp':
            return Poly.at(a) * dy
        if k == 'sin':
            return T.fun('cos', y) * dy
        if k == 'cos':
            return -T.fun('sin', y) * dy
        if k == 'P':
            return dy
    raise Unsupported('derivative of %s' % k)


def diffn(x, v, n):
    for _ in range(n):
        x = diff(x, v)
    return x


def lg(n):
    """Legendre polynomials up to degree n-1 as terms in s"""
    out = [ONE, S]
    for i in range(1, n - 1):
        out.append((P(2 * i + 1) * S * out[i] - P(i) * out[i - 1]) * P(Fr(1, i + 1)))
    return out[:n]


# ------------------------------------------------------------- scenarios
def ctor(p, cls, pred):
    for f in p.find(B + cls + '::' + cls):
        if not f.get('copy') and not f.get('move') and pred(f):
            return f
    raise Unsupported('constructor of %s' % cls)


def legendre(m, dim):
    f = ctor(m.prog, 'BasisLegendre', lambda f: len(f['params']) == 1 and '&' not in m.prog.ty(f['params'][0]['t'])['s'])
    return m.new(B + 'BasisLegendre', f, [P(dim)])


def row(m, cls, b, name, dim, args):
    f = virt(m.prog, B + cls, name)
    out = m.temp(Arr(P(dim), ONE, lambda i, j: Poly.at(atom('uninit', 'buf', i, j))))
    m.call(f, list(args) + [out], b)
    v = m.load(out)
    return f, [topoly(v.f(P(i), ZERO)) for i in range(dim)]


def dims(rep):
    return (2, 3, 4, 5, 6, 7, 8) if rep.tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 9, 10, 11)


def degs(rep, dim):
    return range(0, dim + 2)


def case(rep, rule, f, ins, m, got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        rep.eq(rule, loc(f), '%s, function %d' % (ins, i), g, w, ctx=CTX[0])
    rep.used(m)


def contract(p, rep, cls, mk, dim, spec, ins0, degrees):
    """values and derivatives of one concrete basis"""
    def go():
        m = M(p)
        m.fact(lt(ZERO, TAU))
        b = mk(m)
        f, got = row(m, cls, b, 'eval_on_window', dim, [S, TAU])
        rep.count('basis evaluations')
        case(rep, 'basis value', f, ins0, m, got, spec)
    wrap(rep, 'basis value', B + cls, ins0, go)
    for d in degrees:
        ins = '%s, derivative of degree %d' % (ins0, d)

        def go():
            m = M(p)
            m.fact(lt(ZERO, TAU))
            b = mk(m)
            f, got = row(m, cls, b, 'eval_derivative_on_window', dim, [S, TAU, P(d)])
            rep.count('basis evaluations')
            want = [tder(w, d) for w in spec]
            case(rep, 'basis derivative', f, ins, m, got, want)
        wrap(rep, 'basis derivative', B + cls, ins, go)


def tder(w, d):
    """d-th derivative with respect to the time, t = (s + 1) tau / 2 + left"""
    w = diffn(w, sa, d)
    for _ in range(d):
        w = w * P(2) * T.inv(TAU)
    return w


def check_legendre(p, rep):
    tasks = [(dim,) for dim in dims(rep)]

    def one(rep, t):
        dim, = t
        contract(p, rep, 'BasisLegendre', lambda m: legendre(m, dim), dim, lg(dim), 'Legendre basis of dimension %d' % dim, degs(rep, dim))
    parallel(rep, tasks, one)


def mat(m, b, cls, name, args):
    f = virt(m.prog, B + cls, name)
    r = m.call(f, args, b)
    return f, m.load(r)


def dmatrix(p, rep, cls, mk, dim, vals, ins0, degrees, rule='derivative matrix'):
    """columns of the derivative matrix: sum_k M(k, i) B_k = d^deg B_i"""
    for how in ('fresh', 'after a higher degree', 'after a lower degree'):
        for d in degrees:
            if how != 'fresh' and d not in (1, 2):
                continue
            ins = '%s, degree %d, %s' % (ins0, d, how)

            def go():
                m = M(p)
                b = mk(m)
                if how != 'fresh':
                    mat(m, b, cls, 'get_derivative_matrix_block', [P(d + 1 if 'higher' in how else d - 1)])
                f, a = mat(m, b, cls, 'get_derivative_matrix_block', [P(d)])
                rep.count('derivative matrices')
                rep.used(m)
                rep.eq(rule + ' size', loc(f), ins, a.rows * P(1000) + a.cols, P(dim * 1001), ctx=CTX[0])
                for i in range(dim):
                    g = ZERO
                    for k in range(dim):
                        g = g + topoly(a.f(P(k), P(i))) * vals[k]
                    rep.eq(rule, loc(virt(p, B + cls, 'derivative_matrix_impl')), '%s, function %d' % (ins, i), g, diffn(vals[i], sa, d), ctx=CTX[0])
            wrap(rep, rule, B + cls, ins, go)


def taudiff(p, rep, cls, mk, dim, spec, ins0, degrees):
    for d in degrees:
        ins = '%s, degree %d' % (ins0, d)

        def go():
            m = M(p)
            m.fact(lt(ZERO, TAU))
            b = mk(m)
            f, got = row(m, cls, b, 'eval_derivative_wrt_tau_on_window', dim, [S, TAU, P(d)])
            rep.count('tau-derivative evaluations')
            case(rep, 'derivative with respect to the interval length', f, ins, m, got, [diff(tder(w, d), ta) for w in spec])
        wrap(rep, 'derivative with respect to the interval length', B + cls, ins, go)


def integral(x):
    """integral over s in [-1, 1] of a polynomial in s"""
    r = ZERO
    for mo, c in P(x).m.items():
        e = 0
        rest = P(c)
        for a, ex in mo:
            if a == sa:
                e = ex
            else:
                if sa in a.fv or any(sa == y for y in a.args if not isinstance(y, Poly)):
                    raise Unsupported('not a polynomial in s')
                rest = rest * Poly.at(a, ex)
        if e < 0 or e != int(e):
            raise Unsupported('not a polynomial in s')
        if int(e) % 2 == 0:
            r = r + rest * P(Fr(2, int(e) + 1))
    return r


def gram(p, rep, cls, mk, dim, spec, ins0, degrees):
    """add_derivative_matrix adds the integral of the products of derivatives"""
    for name, w in (('add_derivative_matrix', 0), ('add_derivative_matrix_deriv_wrt_tau', 1)):
        rule = 'Gram matrix' + (', derivative with respect to the interval length' if w else '')
        for d in degrees:
            ins = '%s, degree %d' % (ins0, d)

            def go():
                m = M(p)
                m.fact(lt(ZERO, TAU))
                b = mk(m)
                f = virt(p, B + cls, name)
                out = m.temp(Arr(P(dim), P(dim), lambda i, j: Poly.at(atom('app', 'Q0', P(i), P(j)))))
                m.call(f, [TAU, P(d), out], b)
                rep.count('Gram matrices')
                rep.used(m)
                a = m.load(out)
                ds = [diffn(x, sa, d) for x in spec]
                for i in range(dim):
                    for j in range(dim):
                        q = integral(ds[i] * ds[j])
                        # int dt = tau/2 int ds, each derivative brings 2/tau
                        sc = TAU * P(Fr(1, 2))
                        for _ in range(2 * d):
                            sc = sc * P(2) * T.inv(TAU)
                        if w:
                            sc = diff(sc, ta)
                        want = Poly.at(atom('app', 'Q0', P(i), P(j))) + q * sc
                        rep.eq(rule, loc(f), '%s, entry (%d,%d)' % (ins, i, j), a.f(P(i), P(j)), want, ctx=CTX[0])
            wrap(rep, rule, B + cls, ins, go)


def leg_task(p, rep, fn):
    def one(rep, dim):
        fn(p, rep, 'BasisLegendre', lambda m: legendre(m, dim), dim, lg(dim), 'Legendre basis of dimension %d' % dim, degs(rep, dim))
    parallel(rep, list(dims(rep)), one)


def check_legendre_dmat(p, rep):
    leg_task(p, rep, dmatrix)


def check_legendre_tau(p, rep):
    leg_task(p, rep, taudiff)


def check_legendre_gram(p, rep):
    leg_task(p, rep, gram)


# ------------------------------------------------------------- Lagrange
GLL = {2: ([-1, 1], [1, 1]), 3: ([-1, 0, 1], [Fr(1, 3), Fr(4, 3), Fr(1, 3)])}


def gll_handlers(m):
    """Gauss-Lobatto points and weights are opaque (Newton iteration): exact
    values for 2 and 3 points, stand-ins elsewhere"""
    def pts(m, n, f, args, this):
        if len(args) != 1:
            return NotImplemented
        k = int(topoly(m.val(args[0]) if isinstance(args[0], dict) else args[0]).const())
        xs = GLL[k][0] if k in GLL else [Fr(2 * i, k - 1) - 1 for i in range(k)]
        return Arr(P(k), ONE, lambda i, j: pick(i, xs))

    def wts(m, n, f, args, this):
        if len(args) != 1:
            return NotImplemented
        k = int(topoly(m.val(args[0]) if isinstance(args[0], dict) else args[0]).const())
        xs = GLL[k][1] if k in GLL else [Fr(1, k)] * k
        return Arr(P(k), ONE, lambda i, j: pick(i, xs))
    m.handlers['gsplines::collocation::legendre_gauss_lobatto_points'] = pts
    m.handlers['gsplines::collocation::legendre_gauss_lobatto_weights'] = wts


def lagrange(m, xs):
    gll_handlers(m)
    f = ctor(m.prog, 'BasisLagrange', lambda f: len(f['params']) == 1 and 'Ref' in m.prog.ty(f['params'][0]['t'])['s'])
    a = m.temp(Arr(P(len(xs)), ONE, lambda i, j: pick(i, xs)))
    return m.new(B + 'BasisLagrange', f, [a])


def lagr(xs, s=S):
    out = []
    for j, x in enumerate(xs):
        r = ONE
        for k, y in enumerate(xs):
            if k != j:
                r = r * (s - P(y)) * T.inv(P(x) - P(y))
        out.append(r)
    return out


def rat_eval(x, env):
    r = Fr(0)
    for mo, c in P(x).m.items():
        v = Fr(c)
        for a, e in mo:
            if a.kind == 'P':
                y = rat_eval(a.args[0], env)
            elif a.kind in ('sym', 'app', 'bev', 'btev', 'gram', 'gramt', 'solution', 'val', 'bdm', 'bas'):
                key = a
                try:
                    key = (a.kind,) + tuple(rat_eval(q, env) if isinstance(q, Poly) else q for q in a.args)
                except Unsupported:
                    pass
                if key not in env:
                    env[key] = Fr(env['rng'].randrange(1, 1 << 40), env['rng'].randrange(1, 1 << 20))
                y = env[key]
            else:
                raise Unsupported(a.kind)
            if isinstance(e, Poly) or int(e) != e:
                raise Unsupported('fractional power')
            v *= y ** int(e)
        r += v
    return r


def rat_equal(a, b, n=4):
    """identity of two rational functions, by exact evaluation at random points of a
    large grid (Schwartz-Zippel); raises Unsupported when they are not rational"""
    import random
    rng = random.Random(20240501)
    for _ in range(n):
        env = {'rng': rng}
        try:
            if rat_eval(a, env) != rat_eval(b, env):
                return False
        except ZeroDivisionError:
            return False
    return True


def eqr(rep, rule, where, ins, got, want, ctx):
    """equality of rational functions"""
    try:
        if rat_equal(got, want):
            rep.add('ok', rule, where, ins)
            return
    except (Unsupported, AttributeError):
        pass
    rep.eq(rule, where, ins, got, want, ctx=ctx)


POINTS = [[-1, 1], [-1, 0, 1], [Fr(-1, 2), Fr(1, 4), Fr(3, 4)], [-1, Fr(-1, 3), Fr(1, 2), 1], [Fr(1, 2), -1, Fr(-1, 4), 1]]
POINTS_T = POINTS + [[Fr(-9, 10), Fr(-1, 2), 0, Fr(1, 3), 1], [1, 0, -1]]


def points(rep):
    return POINTS if rep.tier == 'quick' else POINTS_T


def spans(xs):
    ys = sorted({Fr(-1), Fr(1)} | {Fr(x) for x in xs})
    out = []
    for a, b in zip(ys, ys[1:]):
        e = (b - a) / 10 ** 6
        out.append((a + e, b - e))
    return out


def xs_name(xs):
    return '(' + ', '.join(str(x) for x in xs) + ')'


def check_lagrange(p, rep):
    def one(rep, xs):
        n = len(xs)
        ls = lagr(xs)
        for d in [None] + list(range(0, min(n + 1, 4))):
            for lo, hi in spans(xs):
                ins = 'Lagrange basis at %s, %s, s in (%s, %s)' % (xs_name(xs), 'value' if d is None else 'derivative of degree %d' % d, lo, hi)

                def go():
                    m = M(p)
                    for c in (lt(P(lo), S), lt(S, P(hi)), lt(ZERO, TAU)):
                        m.fact(c)
                    b = lagrange(m, xs)
                    f, got = row(m, 'BasisLagrange', b, 'eval_on_window' if d is None else 'eval_derivative_on_window', n,
                                 [S, TAU] + ([] if d is None else [P(d)]))
                    rep.count('basis evaluations')
                    rep.used(m)
                    for i in range(n):
                        eqr(rep, 'basis value' if d is None else 'basis derivative', loc(f), '%s, function %d' % (ins, i), got[i], tder(ls[i], d or 0), CTX[0])
                wrap(rep, 'basis value', B + 'BasisLagrange', ins, go)
            for k, x in enumerate(xs):
                ins = 'Lagrange basis at %s, %s, at node %d' % (xs_name(xs), 'value' if d is None else 'derivative of degree %d' % d, k)

                def go():
                    m = M(p)
                    m.fact(lt(ZERO, TAU))
                    b = lagrange(m, xs)
                    f, got = row(m, 'BasisLagrange', b, 'eval_on_window' if d is None else 'eval_derivative_on_window', n,
                                 [P(x), TAU] + ([] if d is None else [P(d)]))
                    rep.count('basis evaluations')
                    rep.used(m)
                    for i in range(n):
                        w = T.subst(tder(ls[i], d or 0), {sa: P(x)})
                        rep.eq('basis value' if d is None else 'basis derivative', loc(f), '%s, function %d' % (ins, i), got[i], w, ctx=CTX[0])
                wrap(rep, 'basis value', B + 'BasisLagrange', ins, go)
    parallel(rep, points(rep), one)


def lag_degs(n):
    return range(0, n + 2)


LARGE = [[Fr(-1), Fr(-1, 2), Fr(0), Fr(1, 3), Fr(1)], [Fr(-1), Fr(-2, 3), Fr(-1, 4), Fr(1, 5), Fr(3, 5), Fr(1)],
         [Fr(-1), Fr(-3, 4), Fr(-1, 2), Fr(0), Fr(1, 3), Fr(2, 3), Fr(1)]]


def check_lagrange_dmat(p, rep):
    def one(rep, xs):
        dmatrix(p, rep, 'BasisLagrange', lambda m: lagrange(m, xs), len(xs), lagr(xs), 'Lagrange basis at ' + xs_name(xs), lag_degs(len(xs)))
    parallel(rep, points(rep) + (LARGE[:2] if rep.tier == 'quick' else LARGE), one)
    # arbitrary distinct points
    f = [g for g in p.find(B + 'BasisLagrange::derivative_matrix') if len(g['params']) == 2][0]
    def sy(rep, t):
        n, d = t
        ins = 'Lagrange derivative matrix, %d arbitrary distinct points, degree %d' % (n, d)

        def go():
            m = M(p)
            xs = [sym('x%d' % i) for i in range(n)]
            for i in range(n - 1):
                m.fact(lt(xs[i], xs[i + 1]))
            a = m.load(m.call(f, [m.temp(Arr(P(n), ONE, lambda i, j: pick(i, xs))), P(d)]))
            rep.count('derivative matrices')
            rep.used(m)
            ls = lagr(xs)
            for i in range(n):
                for j in range(n):
                    w = T.subst(diffn(ls[j], sa, d), {sa: xs[i]})
                    eqr(rep, 'derivative matrix', loc(f), '%s, entry (%d,%d)' % (ins, i, j), a.f(P(i), P(j)), w, CTX[0])
        wrap(rep, 'derivative matrix', loc(f), ins, go)
    parallel(rep, [(n, d) for n in (2, 3, 4) for d in range(0, n + 1) if n < 4 or d < (2 if rep.tier == 'quick' else 4)], sy)


def check_lagrange_change(p, rep):
    """matrix that maps the values at one set of points to the values at another"""
    f = p.find(B + 'BasisLagrange::change_interpolation_points')[0]

    def one(rep, xs):
        n = len(xs)
        ls = lagr(xs)
        for sp in spans(xs):
            for kind in range(4 if n > 1 else 2):
                ys = [[S], [P(xs[0]), S], [S, P(xs[-1]), P(xs[0])], [P(xs[1]), S, P(xs[1]), S, P(xs[0])] if n > 1 else None][kind]
                ins = 'change of points from %s to %s, s in (%s, %s)' % (xs_name(xs), xs_name(['s' if y is S else T.show(y) for y in ys]), sp[0], sp[1])

                def go():
                    m = M(p)
                    for c in (lt(P(sp[0]), S), lt(S, P(sp[1]))):
                        m.fact(c)
                    a = m.load(m.call(f, [m.temp(Arr(P(n), ONE, lambda i, j: pick(i, [P(x) for x in xs]))),
                                          m.temp(Arr(P(len(ys)), ONE, lambda i, j: pick(i, ys)))]))
                    rep.count('change of points')
                    rep.used(m)
                    rep.eq('size of the change of points', loc(f), ins, a.rows, P(len(ys)))
                    rep.eq('size of the change of points', loc(f), ins, a.cols, P(n))
                    for i, y in enumerate(ys):
                        for j in range(n):
                            eqr(rep, 'change of points', loc(f), '%s, entry (%d,%d)' % (ins, i, j), a.f(P(i), P(j)), T.subst(ls[j], {sa: y}), CTX[0])
                wrap(rep, 'change of points', loc(f), ins, go)
    parallel(rep, points(rep), one)


def check_lagrange_tau(p, rep):
    def one(rep, xs):
        n = len(xs)
        ls = lagr(xs)
        for d in lag_degs(n):
            lo, hi = spans(xs)[0]
            ins = 'Lagrange basis at %s, degree %d' % (xs_name(xs), d)

            def go():
                m = M(p)
                for c in (lt(P(lo), S), lt(S, P(hi)), lt(ZERO, TAU)):
                    m.fact(c)
                b = lagrange(m, xs)
                f, got = row(m, 'BasisLagrange', b, 'eval_derivative_wrt_tau_on_window', n, [S, TAU, P(d)])
                rep.count('tau-derivative evaluations')
                rep.used(m)
                for i in range(n):
                    eqr(rep, 'derivative with respect to the interval length', loc(f), '%s, function %d' % (ins, i), got[i], diff(tder(ls[i], d), ta), CTX[0])
            wrap(rep, 'derivative with respect to the interval length', B + 'BasisLagrange', ins, go)
    parallel(rep, points(rep), one)


def check_lagrange_gram(p, rep):
    """the Gauss-Lobatto rule with as many points as functions is exact for derivatives of degree one and more"""
    def one(rep, xs):
        gram(p, rep, 'BasisLagrange', lambda m: lagrange(m, xs), len(xs), lagr(xs), 'Lagrange basis at ' + xs_name(xs), range(1, len(xs) + 1))
    parallel(rep, [x for x in points(rep) if len(x) in GLL], one)


# ------------------------------------------------------------- Basis0101
AL = sym('alpha')
KK = sym('k', nonneg=True)
ka = next(iter(KK.m))[0][0]


def b0101(m, alpha=None):
    f = ctor(m.prog, 'Basis0101', lambda f: len(f['params']) == 1 and '&' not in m.prog.ty(f['params'][0]['t'])['s'])
    m.fact(lt(ZERO, AL))
    m.fact(lt(AL, ONE))
    return m.new(B + 'Basis0101', f, [AL if alpha is None else alpha])


def f0101(p):
    e, c, s, em = T.fun('exp', p), T.fun('cos', p), T.fun('sin', p), T.fun('exp', -p)
    return [e * c, e * s, em * c, em * s, p, ONE]


def alpha_to_k(x, lits=(Fr(repr(0.35355339059327379)), Fr(0.35355339059327379))):
    """replace alpha^(n/4) (1-alpha)^(-n/4) c^n by k^n, c = sqrt(2)/4 (or its literal)"""
    x = P(x)
    al = next(iter(AL.m))[0][0]
    out = ZERO
    for mo, c in x.m.items():
        n = Fr(0)
        q = Fr(0)
        rest = P(1)
        two = Fr(0)
        for a, e in mo:
            if a == al:
                n += e
            elif a.kind == 'P' and a.args[0] == ONE - AL:
                q += e
            elif a.kind == 'powc' and a.args[0] in (ONE - AL, T.inv(ONE - AL), AL, T.inv(AL), AL * T.inv(ONE - AL)):
                c1 = a.args[1]
                c1 = c1.const() if isinstance(c1, Poly) else Fr(c1)
                if a.args[0] == ONE - AL:
                    q += e * c1
                elif a.args[0] == T.inv(ONE - AL):
                    q -= e * c1
                elif a.args[0] == AL:
                    n += e * c1
                elif a.args[0] == T.inv(AL):
                    n -= e * c1
                else:
                    n += e * c1
                    q -= e * c1
            elif a.kind == 'P' and a.args[0] == AL - ONE:
                raise Unsupported('shape')
            elif a.kind == 'num' or (a.kind == 'P' and a.args[0].is_const()):
                b = a.args[0].const() if isinstance(a.args[0], Poly) else Fr(a.args[0])
                if b != 2:
                    raise Unsupported('irrational constant')
                two += e
            elif a.kind in ('exp', 'sin', 'cos', 'ite'):
                rest = rest * ppow_(T.fun(a.kind, alpha_to_k(a.args[0], lits)), e)
            else:
                rest = rest * Poly.at(a, e)
        if n != -q:
            raise Unsupported('not a power of k')
        k = 4 * n
        if k != int(k):
            raise Unsupported('not a power of k')
        k = int(k)
        # c must carry c0^k
        c0 = Fr(c)
        if two != 0 or k == 0:
            # sqrt(2)/4 = 2^(-3/2)
            e = two + Fr(3, 2) * k
            if e != int(e):
                raise Unsupported('power of two')
            co = c0 * Fr(2) ** int(e)
        else:
            best = None
            for c1 in lits:
                r = c0 / c1 ** k
                z = r.limit_denominator(1 << 20)
                if z != 0 and abs(r / z - 1) < Fr(1, 10 ** 12):
                    best = z
                    break
            if best is None and k % 2 == 0:
                best = c0 * Fr(8) ** (k // 2)
            if best is None:
                raise Unsupported('coefficient')
            co = best
        out = out + rest * P(co) * (Poly.at(ka, k) if k else ONE)
    return out


def ppow_(x, e):
    r = ONE
    if int(e) != e:
        raise Unsupported('power')
    for _ in range(abs(int(e))):
        r = r * (x if e > 0 else T.inv(x))
    return r


def check_0101(p, rep):
    sp = f0101(TAU * KK * S)
    for d in [None] + list(range(0, 5 if rep.tier == 'quick' else 8)):
        ins = 'Basis0101, %s' % ('value' if d is None else 'derivative of degree %d' % d)

        def go():
            m = M(p)
            m.fact(lt(ZERO, TAU))
            b = b0101(m)
            f, got = row(m, 'Basis0101', b, 'eval_on_window' if d is None else 'eval_derivative_on_window', 6, [S, TAU] + ([] if d is None else [P(d)]))
            rep.count('basis evaluations')
            rep.used(m)
            for i in range(6):
                rule = 'basis value' if d is None else 'basis derivative'
                w = tder(sp[i], d or 0)
                eq0(rep, rule, loc(f), '%s, function %d' % (ins, i), got[i], w)
        wrap(rep, 'basis value', B + 'Basis0101', ins, go)


def eq0(rep, rule, where, ins, got, want):
    try:
        g = alpha_to_k(got)
    except Unsupported as ex:
        rep.add('unk', rule, where, ins, str(ex))
        return
    rep.eq(rule, where, ins, g, want, ctx=CTX[0])


def check_0101_dmat(p, rep):
    """for this basis the matrix carries the factor 2k, so it maps to the time derivative"""
    sp = f0101(TAU * KK * S)
    for d in range(0, 5 if rep.tier == 'quick' else 8):
        ins = 'Basis0101, degree %d' % d

        def go():
            m = M(p)
            m.fact(lt(ZERO, TAU))
            b = b0101(m)
            f, a = mat(m, b, 'Basis0101', 'get_derivative_matrix_block', [P(d)])
            rep.count('derivative matrices')
            rep.used(m)
            for i in range(6):
                g = ZERO
                for k in range(6):
                    g = g + alpha_to_k(topoly(a.f(P(k), P(i)))) * sp[k]
                rep.eq('derivative matrix', loc(virt(p, B + 'Basis0101', 'derivative_matrix_impl')), '%s, function %d' % (ins, i), g, tder(sp[i], d), ctx=CTX[0])
        wrap(rep, 'derivative matrix', B + 'Basis0101', ins, go)


def check_0101_tau(p, rep):
    sp = f0101(TAU * KK * S)
    for d in range(0, 5 if rep.tier == 'quick' else 8):
        ins = 'Basis0101, degree %d' % d

        def go():
            m = M(p)
            m.fact(lt(ZERO, TAU))
            b = b0101(m)
            f, got = row(m, 'Basis0101', b, 'eval_derivative_wrt_tau_on_window', 6, [S, TAU, P(d)])
            rep.count('tau-derivative evaluations')
            rep.used(m)
            for i in range(6):
                eq0(rep, 'derivative with respect to the interval length', loc(f), '%s, function %d' % (ins, i), got[i], diff(tder(sp[i], d), ta))
        wrap(rep, 'derivative with respect to the interval length', B + 'Basis0101', ins, go)


# trigonometric polynomials in q = tau k
EQ, SQ, CQ = sym('E'), sym('Sn'), sym('Cn')


def trig(x):
    """exp(n q), sin(n q), cos(n q), q = tau k, as polynomials in E, S, C; C^2 = 1 - S^2"""
    x = P(x)
    q = TAU * KK
    out = ZERO
    for mo, c in x.m.items():
        t = P(c)
        for a, e in mo:
            if a.kind in ('exp', 'sin', 'cos'):
                r = a.args[0] * T.inv(q)
                if not r.is_const():
                    raise Unsupported('argument')
                r = r.const()
                if r != int(r) or e != int(e):
                    raise Unsupported('argument')
                r, e = int(r), int(e)
                if a.kind == 'exp':
                    y = Poly.at(next(iter(EQ.m))[0][0], r * e) if r * e else ONE
                else:
                    if e < 0:
                        raise Unsupported('inverse sine')
                    c1, s1 = ONE, ZERO
                    for _ in range(abs(r)):
                        c1, s1 = c1 * CQ - s1 * SQ, s1 * CQ + c1 * SQ
                    if r < 0:
                        s1 = -s1
                    y = ppow_(c1 if a.kind == 'cos' else s1, e)
            else:
                y = Poly.at(a, e)
            t = t * y
        out = out + t
    # reduce powers of C
    ca = next(iter(CQ.m))[0][0]
    while True:
        hit = False
        nxt = ZERO
        for mo, c in out.m.items():
            t = P(c)
            for a, e in mo:
                if a == ca and e >= 2:
                    hit = True
                    t = t * (ONE - SQ * SQ)
                    if e > 2:
                        t = t * Poly.at(a, e - 2)
                else:
                    t = t * Poly.at(a, e)
            nxt = nxt + t
        out = nxt
        if not hit:
            return out


def at_zero(x):
    """value at tau = 0 of a term in exp/sin/cos of multiples of tau k"""
    return T.subst(x, {ta: ZERO})


def numeric(rep, rule, where, ins, got, want):
    """closed forms outside the normalised ring: a difference at a random argument refutes equality, agreement decides nothing"""
    from rules_e2e import sample_equal
    r = sample_equal(got, want, [lt(ZERO, TAU), lt(ZERO, KK)])
    if isinstance(r, tuple):
        rep.add('bad', rule, where, ins, 'for some interval length %.6g instead of %.6g' % r[1:])
    else:
        rep.eq(rule, where, ins, got, want, ctx=CTX[0])


def check_0101_gram(p, rep):
    """Q(tau) vanishes at tau = 0 and dQ/dtau is the sum of the end values of the integrand"""
    pp = sym('p')
    pa = next(iter(pp.m))[0][0]
    fs = f0101(pp)
    fadd = virt(p, B + 'Basis0101', 'add_derivative_matrix')
    ftau = virt(p, B + 'Basis0101', 'add_derivative_matrix_deriv_wrt_tau')

    def run(f, d):
        m = M(p)
        m.fact(lt(ZERO, TAU))
        b = b0101(m)
        out = m.temp(Arr(P(6), P(6), lambda i, j: Poly.at(atom('app', 'Q0', P(i), P(j)))))
        m.call(f, [TAU, P(d), out], b)
        a = m.load(out)
        rep.used(m)
        rep.count('Gram matrices')
        return [[alpha_to_k(topoly(a.f(P(i), P(j))) - Poly.at(atom('app', 'Q0', P(i), P(j)))) for j in range(6)] for i in range(6)]

    for d in (0, 1, 2, 3):
        for f, w in ((fadd, 0), (ftau, 1)):
            if w and d not in (1, 3):
                continue
            rule = 'Gram matrix' + (', derivative with respect to the interval length' if w else '')

            def go():
                q = run(f, d)
                for i in range(6):
                    for j in range(6):
                        ins = 'Basis0101, degree %d, entry (%d,%d)' % (d, i, j)
                        g = diffn(fs[i], pa, d) * diffn(fs[j], pa, d)
                        for _ in range(2 * d):
                            g = g * P(2) * KK
                        # t = p/(2k): dQ/dtau = (g(tau k) + g(-tau k)) / 2
                        want = (T.subst(g, {pa: TAU * KK}) + T.subst(g, {pa: -TAU * KK})) * P(Fr(1, 2))
                        got = diff(q[i][j], ta) if not w else q[i][j]
                        try:
                            a, b = trig(got), trig(want)
                        except Unsupported:
                            a, b = ONE, ZERO
                        if a == b:
                            rep.add('ok', rule, loc(f), ins)
                        else:
                            numeric(rep, rule, loc(f), ins, got, want)
                        if not w:
                            z = at_zero(q[i][j])
                            rep.eq('Gram matrix of an empty interval', loc(f), ins, z, ZERO, ctx=CTX[0])
            wrap(rep, rule, loc(f), 'Basis0101, degree %d' % d, go)


# ------------------------------------------------------------- copies
def copies(p, cls):
    """(description, function from an object to an equal object)"""
    out = []
    for f in p.find(B + cls + '::' + cls):
        if f.get('copy') or f.get('move'):
            out.append(('copy constructor' if f.get('copy') else 'move constructor', lambda m, b, f=f: m.new(B + cls, f, [b])))
    for nm in ('clone', 'move_clone'):
        try:
            f = virt(p, B + cls, nm)
        except Unsupported:
            continue

        def go(m, b, f=f):
            r = m.call(f, [], b)
            if isinstance(r, LV):
                r = m.load(r)
            if isinstance(r, Box):
                if r.v is None:
                    raise NullDeref('null copy')
                return m.temp(r.v)
            if isinstance(r, Ptr):
                return r.lv
            raise Unsupported('result of %s' % f['n'])
        out.append((nm, go))
    return out


def check_copies(p, rep):
    tasks = []
    for cls, mk, n, spec, degs_, nm in (('BasisLegendre', lambda m: legendre(m, 3), 3, lg(3), (0, 1, 2, 3), 'Legendre basis of dimension 3'),
                                        ('BasisLagrange', lambda m: lagrange(m, [-1, 0, 1]), 3, lagr([-1, 0, 1]), (0, 1, 2, 3), 'Lagrange basis at (-1, 0, 1)'),
                                        ('Basis0101', b0101, 6, f0101(TAU * KK * S), (0, 1, 2, 3), 'Basis0101')):
        for desc, cp in copies(p, cls):
            for warm in (0, 1, 2):
                tasks.append((cls, mk, n, spec, degs_, nm, desc, cp, warm))

    def one(rep, t):
        cls, mk, n, spec, degs_, nm, desc, cp, warm = t
        ins0 = '%s, %s%s' % (nm, desc, ['', ', derivative matrices computed before', ', all queries made before with other arguments'][warm])

        def obs(m, b, S=S, TAU=TAU, degs_=degs_):
            out = []
            f = virt(p, B + cls, 'get_dim')
            out.append(('dimension', topoly(m.load(m.call(f, [], b)))))
            ps = m.load(m.call(virt(p, B + cls, 'get_parameters'), [], b))
            out.append(('number of parameters', ps.rows))
            for i in range({'BasisLegendre': 0, 'Basis0101': 1}.get(cls, n)):
                out.append(('parameter %d' % i, topoly(ps.f(P(i), ZERO))))
            for i, x in enumerate(row(m, cls, b, 'eval_on_window', n, [S, TAU])[1]):
                out.append(('value of function %d' % i, x))
            for i, x in enumerate(row(m, cls, b, 'eval_derivative_on_window', n, [S, TAU, P(1)])[1]):
                out.append(('derivative of function %d' % i, x))
            for i, x in enumerate(row(m, cls, b, 'eval_derivative_wrt_tau_on_window', n, [S, TAU, P(1)])[1]):
                out.append(('tau-derivative of function %d' % i, x))
            for d in range(0, 5):
                a = mat(m, b, cls, 'get_derivative_matrix_block', [P(d)])[1]
                for i in range(n):
                    for j in range(n):
                        out.append(('derivative matrix %d (%d,%d)' % (d, i, j), topoly(a.f(P(i), P(j)))))
            for d in degs_:
                for g in ('add_derivative_matrix', 'add_derivative_matrix_deriv_wrt_tau'):
                    if cls == 'Basis0101' and d in (0, 2) and 'tau' in g:
                        continue
                    o = m.temp(Arr(P(n), P(n), lambda i, j: ZERO))
                    m.call(virt(p, B + cls, g), [TAU, P(d), o], b)
                    a = m.load(o)
                    for i in range(n):
                        for j in range(n):
                            out.append(('%s %d (%d,%d)' % (g, d, i, j), topoly(a.f(P(i), P(j)))))
            return out

        def go():
            res = []
            for copy in (False, True):
                m = M(p)
                m.fact(lt(ZERO, TAU))
                m.fact(lt(P(Fr(1, 10)), S))
                m.fact(lt(S, P(Fr(9, 10))))
                b = mk(m)
                if warm == 2:
                    if not copy:
                        res.append(('fresh', obs(m, mk(m))))
                    s2 = sym('s2')
                    m.fact(lt(P(Fr(-9, 10)), s2))
                    m.fact(lt(s2, P(Fr(-1, 10))))
                    m.fact(lt(ZERO, sym('tau2')))
                    obs(m, b, s2, sym('tau2'), tuple(reversed(degs_)))
                if warm == 1:
                    mat(m, b, cls, 'get_derivative_matrix_block', [P(1)])
                if copy:
                    b0 = b
                    b = cp(m, b)
                    if 'move' not in desc:
                        # the source still answers the same
                        res.append(('source', obs(m, b0)))
                    else:
                        res.append(('source', None))
                res.append(('copy' if copy else 'original', obs(m, b)))
                rep.used(m)
            rep.count('copies')
            if warm == 2:
                for (w, a), (w2, b) in zip(res[0][1], res[1][1]):
                    eqr(rep, 'answers do not depend on earlier queries', B + cls, '%s, %s' % (nm, w), b, a, CTX[0])
                res.pop(0)
            o, s, c = (x[1] for x in res)
            for (w, a), (w2, b) in zip(o, c):
                eqr(rep, 'a copy answers like its source', B + cls, '%s, %s' % (ins0, w), b, a, CTX[0])
            if s is not None:
                for (w, a), (w2, b) in zip(o, s):
                    eqr(rep, 'copying leaves the source unchanged', B + cls, '%s, %s' % (ins0, w), b, a, CTX[0])
        wrap(rep, 'a copy answers like its source', B + cls, ins0, go)
    parallel(rep, tasks, one)
