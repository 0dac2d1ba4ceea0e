"""Quadrature: Gauss-Lobatto rules on one and several intervals, integrals and inner products of functions."""
from scen import *
from report import *
import values as V
import rules_basis as B
import rules_col as Q
from rules_elem import wrap
from rules_alg import I, J
from absfun import pick
from fractions import Fraction as Fr

C = 'gsplines::collocation::'
FA = 'gsplines::functional_analysis::'


def leg(n, t):
    a, b = ONE, t
    if n == 0:
        return ONE
    for k in range(2, n + 1):
        a, b = b, (P(2 * k - 1) * t * b - P(k - 1) * a) * P(Fr(1, k))
    return b


def dleg(n, t):
    a, b = ZERO, ONE
    if n == 0:
        return ZERO
    for k in range(2, n + 1):
        a, b = b, a + P(2 * k - 1) * leg(k - 1, t)
    return b


def comp(m, r):
    v = m.load(r) if isinstance(r, LV) else r
    ks = ['first', 'second'] if 'first' in v.d else sorted(v.d, key=int)
    return [v.d[k] for k in ks]


def fn(p, name, pred=lambda t: True):
    return [f for f in p.find(C + name) if pred([p.ty(x)['s'] for x in f['pt']])]


def check_legendre_eval(p, rep):
    """the function whose roots are the interior nodes: (L_{n+1} - L_{n-1}, its derivative, L_n), identically in t"""
    fs = [f for f in p.find(C + 'q_and_evaluation') if len(f['pt']) == 2]
    t = sym('t')

    def one(rep, n):
        for f in fs:
            ins = 'n=%d' % n

            def go():
                m = M(p)
                rep.count('polynomial identities')
                q, qp, l = comp(m, m.call(f, [t, P(n)]))
                rep.used(m)
                w = [leg(n + 1, t) - leg(n - 1, t), dleg(n + 1, t) - dleg(n - 1, t), leg(n, t)]
                for nm, g, x in zip(('q', "q'", 'L'), (q, qp, l), w):
                    B.eqr(rep, 'node polynomial', loc(f), '%s, %s' % (ins, nm), topoly(g), x, CTX[0])
            wrap(rep, 'node polynomial', loc(f), ins, go)
    parallel(rep, list(range(2, 9 if rep.tier == 'quick' else 17)), one)


def qhandler(seen, steps, q0=None):
    """abstract q_and_evaluation: arbitrary non-zero residuals on the first
    `steps` calls at a point, an exact root afterwards"""
    def h(m, n, f, args, this):
        x = topoly(m.val(args[0]) if isinstance(args[0], dict) else args[0])
        k = topoly(m.val(args[1]) if isinstance(args[1], dict) else args[1])
        i = next((i for i, (y, _) in enumerate(seen) if y == x), len(seen))
        if i == len(seen):
            seen.append((x, k))
        L = Poly.at(atom('app', 'L', k, x))
        if x.is_const() and k.is_const():
            L = leg(int(k.const()), x)
        q = Poly.at(atom('app', 'q%d' % i, k)) if i < steps else ZERO
        qp = Poly.at(atom('app', 'qp%d' % i, k))
        if q0 and i < steps:
            q, qp = P(q0[i][0]), P(q0[i][1])
        return Rec('std::tuple', {'0': q, '1': qp, '2': L})
    return h


def check_rule(p, rep):
    """nodes and weights on [-1,1]"""
    fs = [f for f in p.find(C + 'legendre_gauss_lobatto_points_and_weights') if len(f['pt']) == 1]
    po = fn(p, 'legendre_gauss_lobatto_points', lambda t: len(t) == 1)
    we = fn(p, 'legendre_gauss_lobatto_weights', lambda t: len(t) == 1)

    def one(rep, n):
        for f in fs:
            ins = '%d points' % n

            def go():
                m = M(p)
                rep.count('rules')
                seen = []
                if n > 3:
                    m.handlers[C + 'q_and_evaluation'] = qhandler(seen, 0)
                a, b = comp(m, m.call(f, [P(n)]))
                rep.used(m)
                for nm, x in (('points', a), ('weights', b)):
                    rep.eq('Gauss-Lobatto rule', loc(f), '%s, number of %s' % (ins, nm), x.rows * x.cols, P(n), ctx=CTX[0])
                rep.eq('Gauss-Lobatto rule', loc(f), ins + ', first point', a.lin(ZERO), P(-1), ctx=CTX[0])
                rep.eq('Gauss-Lobatto rule', loc(f), ins + ', last point', a.lin(P(n - 1)), ONE, ctx=CTX[0])
                for e in (0, n - 1):
                    rep.eq('Gauss-Lobatto rule', loc(f), '%s, weight %d' % (ins, e), b.lin(P(e)), P(Fr(2, n * (n - 1))), ctx=CTX[0])
                for i in range(1, n - 1):
                    x, w = topoly(a.lin(P(i))), topoly(b.lin(P(i)))
                    y, v = topoly(a.lin(P(n - 1 - i))), topoly(b.lin(P(n - 1 - i)))
                    rep.eq('Gauss-Lobatto rule', loc(f), '%s, point %d mirrors point %d' % (ins, i, n - 1 - i), x, -y, ctx=CTX[0])
                    rep.eq('Gauss-Lobatto rule', loc(f), '%s, weight %d mirrors weight %d' % (ins, i, n - 1 - i), w, v, ctx=CTX[0])
                    if i <= n - 1 - i:
                        if 2 * i == n - 1:
                            rep.eq('Gauss-Lobatto rule', loc(f), '%s, middle point' % ins, x, ZERO, ctx=CTX[0])
                            L = leg(n - 1, ZERO)
                        else:
                            L = Poly.at(atom('app', 'L', P(n - 1), x))
                        rep.eq('Gauss-Lobatto rule', loc(f), '%s, weight %d is 2/(n(n-1) L(x)^2)' % (ins, i), w, P(Fr(2, n * (n - 1))) * T.inv(L * L), ctx=CTX[0])
                for x, k in seen:
                    rep.eq('Gauss-Lobatto rule', loc(f), ins + ', order of the node polynomial', k, P(n - 1), ctx=CTX[0])
            wrap(rep, 'Gauss-Lobatto rule', loc(f), ins, go)
        for k, fs2 in ((0, po), (1, we)):
            for f in fs2:
                ins = '%d points, %s' % (n, f['n'])

                def go2():
                    m = M(p)
                    rep.count('rules')
                    A = [Arr(P(n), ONE, (lambda nm: lambda i, j: Poly.at(atom('app', nm, P(i))))(nm)) for nm in ('X', 'W')]
                    m.handlers[C + 'legendre_gauss_lobatto_points_and_weights'] = lambda m, nn, ff, args, this: Rec('std::pair', {'first': A[0], 'second': A[1]})
                    r = m.call(f, [P(n)])
                    rep.used(m)
                    v = m.load(r) if isinstance(r, LV) else r
                    rep.eq('points and weights are told apart', loc(f), ins + ', size', v.rows * v.cols, P(n), ctx=CTX[0])
                    for i in range(n):
                        rep.eq('points and weights are told apart', loc(f), '%s, entry %d' % (ins, i), v.lin(P(i)), A[k].lin(P(i)), ctx=CTX[0])
                wrap(rep, 'points and weights are told apart', loc(f), ins, go2)
    parallel(rep, [2, 3, 4, 5, 6, 7] if rep.tier == 'quick' else list(range(2, 13)), one)


def check_newton(p, rep):
    """the iteration for an interior node is x - q(x)/q'(x)"""
    fs = [f for f in p.find(C + 'legendre_gauss_lobatto_points_and_weights') if len(f['pt']) == 1]

    def one(rep, t):
        n, q0 = t
        for f in fs:
            ins = '%d points, node 1, residuals %s' % (n, [(str(a), str(b)) for a, b in q0])

            def go():
                m = M(p)
                rep.count('iterations')
                seen = []
                m.UNROLL = 200
                m.handlers[C + 'q_and_evaluation'] = qhandler(seen, len(q0), q0)
                m.call(f, [P(n)])
                rep.used(m)
                if len(seen) <= len(q0):
                    raise Unsupported('no further evaluation')
                for i, (a, b) in enumerate(q0):
                    rep.eq('Newton step', loc(f), '%s, step %d' % (ins, i), seen[i + 1][0], seen[i][0] - P(a / b), ctx=CTX[0])
            wrap(rep, 'Newton step', loc(f), ins, go)
    parallel(rep, [(n, q) for n in (4, 5, 7) for q in ([(Fr(1), Fr(-4))], [(Fr(1, 3), Fr(5)), (Fr(-1, 7), Fr(3))])], one)


def check_composite(p, rep):
    """nodes and weights on several intervals"""
    jobs = []
    for nm in ('legendre_gauss_lobatto_points', 'legendre_gauss_lobatto_weights'):
        for f in p.find(C + nm):
            if len(f['pt']) > 1:
                jobs.append((nm.split('_')[-1], f))

    def one(rep, t):
        what, f, (n, ng) = t
        ts_ = [p.ty(x)['s'] for x in f['pt']]
        vec_ = any('Vector' in s or 'Matrix' in s for s in ts_)
        ins = '%s(%s), %d intervals, %d nodes' % (what, ', '.join(ts_), n, ng)
        t0 = sym('a')

        def go():
            m = M(p)
            B.gll_handlers(m)
            rep.count('composite rules')
            if vec_:
                ls = [sym('h%d' % i) for i in range(n)]
            else:
                h = sym('b') - t0
                ls = [h * P(Fr(1, n))] * n
            args = []
            for s in ts_:
                if 'tuple' in s:
                    args.append(Rec('std::tuple', {'0': t0, '1': sym('b')}))
                elif 'Vector' in s or 'Matrix' in s:
                    args.append(m.temp(Arr(P(n), ONE, lambda i, j: pick(i, ls))))
                elif s.replace('const ', '') == 'double':
                    args.append(t0)
                else:
                    args.append(P(ng) if not any(isinstance(x, Poly) and x == P(ng) and x is not t0 for x in args) else P(n))
            r = m.call(f, args)
            rep.used(m)
            v = m.load(r) if isinstance(r, LV) else r
            rep.eq('composite rule', loc(f), ins + ', size', v.rows * v.cols, P(n * ng), ctx=CTX[0])
            ps = Q.pts_of(ls, t0, ng)
            for k in range(n):
                for i in range(ng):
                    w = ps[k][i] if what == 'points' else P(B.GLL[ng][1][i]) * ls[k] * P(Fr(1, 2))
                    B.eqr(rep, 'composite rule', loc(f), '%s, interval %d, node %d' % (ins, k, i), topoly(v.lin(P(k * ng + i))), w, CTX[0])
        wrap(rep, 'composite rule', loc(f), ins, go)
    parallel(rep, [(a, b, s) for a, b in jobs for s in ((1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3))], one)


def rule(k):
    """the exact rule, or the stand-in used by the handlers"""
    return B.GLL[k] if k in B.GLL else ([Fr(2 * i, k - 1) - 1 for i in range(k)], [Fr(1, k)] * k)


def quad(t0, t1, n, ng, g):
    """sum over n equal intervals of weight * h/2 * g(point)"""
    h = (P(t1) - P(t0)) * P(Fr(1, n))
    xs, ws = rule(ng)
    ps = [[P(t0) + h * P(k) + (P(z) + ONE) * h * P(Fr(1, 2)) for z in xs] for k in range(n)]
    r = ZERO
    for k in range(n):
        for i in range(ng):
            r = r + P(ws[i]) * h * P(Fr(1, 2)) * g(ps[k][i])
    return r


def pw_handler(m):
    B.gll_handlers(m)

    def both(m, n, f, args, this):
        k = int(topoly(m.val(args[0]) if isinstance(args[0], dict) else args[0]).const())
        a, b = rule(k)
        return Rec('std::pair', {'first': Arr(P(k), ONE, lambda i, j: pick(i, a)), 'second': Arr(P(k), ONE, lambda i, j: pick(i, b))})
    m.handlers[C + 'legendre_gauss_lobatto_points_and_weights'] = both


def check_integral(p, rep):
    """integral(f): weighted sum of the values at the nodes; only scalar functions"""
    fs = [f for f in p.find(FA + 'integral') if len(f['pt']) == 3]

    def one(rep, t):
        f, n, ng, cd = t
        ins = 'integral, %d intervals, %d nodes, %d components' % (n, ng, cd)
        t0, t1 = Fr(-1, 2), Fr(9, 4)

        def go():
            m = M(p)
            pw_handler(m)
            a, k = Q.fun_arg(m, 'F', t0, t1, cd)
            rep.count('integrals')
            try:
                r = m.call(f, [a, P(ng), P(n)])
            except Dead:
                return Q.throws(rep, m, f, ins, cd != 1)
            if cd != 1:
                return Q.accepted(rep, m, f, ins)
            rep.used(m)
            B.eqr(rep, 'integral', loc(f), ins, topoly(m.load(r) if isinstance(r, LV) else r), quad(t0, t1, n, ng, lambda x: Q.fval(k, x, 0)), CTX[0])
        wrap(rep, 'integral', loc(f), ins, go)
    parallel(rep, [(f, n, g, c) for f in fs for n in (1, 2, 3, 4) for g in (2, 3) for c in (0, 1, 2)], one)


def pairs_vec(m, terms):
    from values import Seq
    return Seq([('one', Rec('std::pair', {'first': P(a), 'second': P(b)})) for a, b in terms])


def check_products(p, rep):
    """inner products and (squared) norms of functions: weighted sums of integrals of products of derivatives"""
    names = ('sobolev_semi_inner_product', 'sobolev_semi_norm', 'sobolev_inner_product', 'sobolev_norm', 'l2_norm', 'l2_inner_product')
    fs = [f for nm in names for f in p.find(FA + nm)]
    t0, t1 = Fr(-1, 2), Fr(9, 4)

    def one(rep, t):
        f, cd, n, ng, sub = t
        two = 'inner' in f['n']
        semi = 'semi' in f['n']
        l2 = f['n'].startswith('l2')
        ins = '%s, %d components, %d intervals, %d nodes, %s' % (f['n'], cd, n, ng, sub if not l2 else '')

        def go():
            m = M(p)
            pw_handler(m)
            rep.count('inner products')
            a, ka = Q.fun_arg(m, 'F', t0, t1, cd)
            b, kb = Q.fun_arg(m, 'G', t0, t1, cd) if two else (a, ka)
            for k in (ka, kb):
                for d in range(9):
                    m.fconst[der(k, P(d))] = m.fconst[k]
            args = [a, b] if two else [a]
            if semi:
                ws = [(d, sym('w%d' % i)) for i, d in enumerate(sub)]
                args.append(m.temp(pairs_vec(m, ws)))
            elif l2:
                ws = [(0, ONE)]
            else:
                ws = [(d, ONE) for d in range(sub[-1] + 1)]
                args.append(P(sub[-1]))
            args += [P(ng), P(n)]
            r = m.call(f, args)
            rep.used(m)

            def g(x):
                s = ZERO
                for d, w in ws:
                    for c in range(cd):
                        s = s + P(w) * Q.fval(der(ka, P(d)) if d else ka, x, c) * Q.fval(der(kb, P(d)) if d else kb, x, c)
                return s
            got = topoly(m.load(r) if isinstance(r, LV) else r)
            B.eqr(rep, 'inner product', loc(f), ins, got, quad(t0, t1, n, ng, g), CTX[0])
        wrap(rep, 'inner product', loc(f), ins, go)
    parallel(rep, [(f, cd, n, ng, sub) for f in fs for cd, n, ng in ((1, 1, 2), (2, 1, 2), (1, 2, 3), (2, 2, 2))
                   for sub in ([0], [1], [0, 2], [3, 1], [4, 0, 1, 2, 5], [7]) if not (f['n'].startswith('l2') and sub != [0])], one)


def check_path_integral(p, rep):
    """collocation::integral(diffeo, path): integral of |path(diffeo(t))|^2 over the domain of the diffeomorphism"""
    fs = [f for f in p.find(C + 'integral') if len(f['pt']) == 2]
    t0, t1 = Fr(-1, 2), Fr(9, 4)

    def one(rep, t):
        f, cd = t
        ins = 'path with %d components' % cd

        def go():
            m = M(p)
            pw_handler(m)
            rep.count('integrals')
            a, ka = Q.fun_arg(m, 'D', t0, t1, 1)
            b, kb = Q.fun_arg(m, 'F', Fr(3), Fr(4), cd)
            r = m.call(f, [a, b])
            rep.used(m)

            def g(x):
                s = ZERO
                for c in range(cd):
                    y = Q.fval(kb, Q.fval(ka, x, 0), c)
                    s = s + y * y
                return s
            B.eqr(rep, 'integral along a path', loc(f), ins, topoly(m.load(r) if isinstance(r, LV) else r), quad(t0, t1, 1, 10, g), CTX[0])
        wrap(rep, 'integral along a path', loc(f), ins, go)
    parallel(rep, [(f, c) for f in fs for c in (1, 2)], one)
