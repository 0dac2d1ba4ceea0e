"""Generalised splines: evaluation, derivatives, vector space, scaling."""
from scen import *
from report import *
import rules_alg as A
import rules_elem as E
from rules_elem import wrap, as_obj, meta_of, rejected
from rules_alg import I, J, T_
from absfun import pick
from lib import sfun

G = 'gsplines::'
GB = G + 'GSplineBase'
GS = G + 'GSpline'
CD = sym('cd', sort='int', nonneg=True)
L = sym('L', sort='int', nonneg=True)


def bdim(k):
    return Poly.at(atom('bdim', k, sort='int', nonneg=True))


def tau(name, i):
    return Poly.at(atom('app', 'tau' + name, P(i)))


def coef(name, i):
    return Poly.at(atom('app', 'coef' + name, P(i)))


def bev(k, s, t, d, i):
    return Poly.at(atom('bev', k, P(s), P(t), P(d), P(i)))


def t0(name):
    return sym('t0' + name)


def left(name, i):
    r = t0(name)
    for q in range(i):
        r = r + tau(name, q)
    return r


def basis(m, name='B'):
    k = Poly.at(atom('bas', name))
    m.fact(le(ONE, bdim(k)))
    return m.temp(Abs('basis', k), 'o'), k


def gs_ctor(p, rv=False):
    for f in p.find(GB + '::GSplineBase'):
        if len(f['params']) == 7 and bool(p.ty(f['params'][4]['t']).get('rref')) == rv:
            return f
    raise Unsupported('spline constructor')


def spline(m, name, n, bas, bk, cls=GS, cd=CD, rv=False, tauname=None, t0name=None):
    """a spline with n intervals, symbolic dimension, basis and coefficients"""
    p = m.prog
    tn = tauname or name
    for i in range(n):
        m.fact(lt(ZERO, tau(tn, i)))
    m.fact(le(ONE, cd))
    co = m.temp(Arr(P(n) * cd * bdim(bk), ONE, lambda i, j: coef(name, i)))
    ta = m.temp(Arr(P(n), ONE, lambda i, j: tau(tn, i)))
    t00 = t0name or tn
    d = pair(t0(t00), t0(t00) + left(tn, n) - t0(tn))
    return m.new(cls, gs_ctor(p, rv), [d, cd, P(n), bas, co, ta, m.temp(Str())])


def want_value(name, bk, n, k, t, j, d=0, cd=CD, cf=None):
    b = fresh_bv('s')
    s = P(2) * (t - left(name, k)) * ipow(tau(name, k), -1) - ONE
    c = (cf or (lambda i: coef(name, i)))
    return psum(b, bdim(bk), c(P(k) * bdim(bk) * cd + bdim(bk) * j + P(b)) * bev(bk, s, tau(name, k), P(d), P(b)))


def ipow(x, e):
    return T.inv(x) if e == -1 else T.ppow(x, P(e))


def places(n):
    """(description, interval, facts on t)"""
    out = []
    for k in range(n):
        out.append(('inside interval %d of %d' % (k + 1, n), k, lambda t, nm, k=k: [lt(left(nm, k), t), lt(t, left(nm, k + 1))]))
    out.append(('at the start of %d intervals' % n, 0, lambda t, nm: [eq(t, t0(nm))]))
    out.append(('before the start of %d intervals' % n, 0, lambda t, nm: [lt(t, t0(nm))]))
    out.append(('at the end of %d intervals' % n, n - 1, lambda t, nm: [eq(t, left(nm, n))]))
    out.append(('after the end of %d intervals' % n, n - 1, lambda t, nm: [lt(left(nm, n), t)]))
    return out


def check_eval(p, rep):
    f = virt(p, GB, 'value_impl')
    for n in (1, 2, 3, 4, 6) if rep.tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 11):
        for desc, k, fs in places(n):
            m = M(p)
            ins = 'evaluation ' + desc

            def go():
                bas, bk = basis(m)
                g = spline(m, 'A', n, bas, bk)
                t = sym('t')
                for c in fs(t, 'A'):
                    m.fact(c)
                pts = m.temp(Arr(ONE, ONE, lambda i, j: t))
                out = m.temp(Arr(ONE, CD, lambda i, j: Poly.at(atom('uninit', 'r', i, j))))
                m.call(f, [pts, out], g)
                m.fact(lt(J, CD))
                rep.count('evaluation cases')
                rep.used(m)
                rep.eq('spline value', loc(f), ins, m.load(out).at(ZERO, J), want_value('A', bk, n, k, t, J), ctx=CTX[0])
            wrap(rep, 'spline value', loc(f), ins, go)


def check_eval_many(p, rep):
    """several points in one call, repeated calls, interior breakpoints"""
    f = virt(p, GB, 'value_impl')

    def cell(n, k, t):
        if k < 0:
            return [lt(t, t0('A'))]
        if k >= n:
            return [lt(left('A', n), t)]
        return [lt(left('A', k), t), lt(t, left('A', k + 1))]

    def one(rep, task):
        n, ks, calls = task
        ins = '%d points in intervals %s of %d, in %d call(s)' % (len(ks), ', '.join(str(k + 1) for k in ks), n, calls)

        def go():
            m = M(p)
            bas, bk = basis(m)
            g = spline(m, 'A', n, bas, bk)
            ts = [sym('t_%d' % i) for i in range(len(ks))]
            for t, k in zip(ts, ks):
                for c in cell(n, k, t):
                    m.fact(c)
            m.fact(lt(J, CD))
            outs = []
            if calls == 1:
                out = m.temp(out_arr(len(ks)))
                m.call(f, [m.temp(Arr(P(len(ks)), ONE, lambda i, j: pick(i, ts))), out], g)
                outs = [m.load(out).at(P(i), J) for i in range(len(ks))]
            else:
                for t in ts:
                    out = m.temp(out_arr(1))
                    m.call(f, [m.temp(Arr(ONE, ONE, lambda i, j: t)), out], g)
                    outs.append(m.load(out).at(ZERO, J))
            rep.count('evaluations of several points')
            rep.used(m)
            for i, (t, k) in enumerate(zip(ts, ks)):
                kk = min(max(k, 0), n - 1)
                rep.eq('spline value', loc(f), '%s, point %d' % (ins, i + 1), outs[i], want_value('A', bk, n, kk, t, J), ctx=CTX[0])
        wrap(rep, 'spline value', loc(f), ins, go)
    tasks = []
    for n in (1, 2, 3):
        ks = range(-1, n + 1)
        for a in ks:
            for b in ks:
                tasks.append((n, (a, b), 1))
                tasks.append((n, (a, b), 2))
    for a in range(3):
        for b in range(3):
            for c in range(3):
                tasks.append((3, (a, b, c), 1))
    parallel(rep, tasks, one)
    # interior breakpoints: one of the two adjacent pieces
    for n in (2, 3):
        for k in range(1, n):
            ins = 'evaluation at breakpoint %d of %d intervals' % (k, n)

            def go():
                m = M(p)
                bas, bk = basis(m)
                g = spline(m, 'A', n, bas, bk)
                t = sym('t')
                m.fact(eq(t, left('A', k)))
                out = m.temp(out_arr(1))
                m.call(f, [m.temp(Arr(ONE, ONE, lambda i, j: t)), out], g)
                m.fact(lt(J, CD))
                rep.used(m)
                got = m.load(out).at(ZERO, J)
                rs = [compare(got, want_value('A', bk, n, q, t, J), (), None, CTX[0]) for q in (k - 1, k)]
                v = [r[0] for r in rs]
                i = v.index('ok') if 'ok' in v else (v.index('unk') if 'unk' in v else 0)
                rep.add(v[i], 'spline value at a breakpoint', loc(f), ins, rs[i][1])
            wrap(rep, 'spline value at a breakpoint', loc(f), ins, go)


def check_segment(p, rep):
    """coefficient segments and accessors"""
    fs = list(p.find(GB + '::coefficient_segment')) + list(p.find('gsplines::get_coefficient_segment'))
    for f in fs:
        for n in (1, 2, 3, 6):
            for k in range(n):
                ins = '%s, interval %d of %d' % ('const' if f.get('const') else ('free function' if len(f['params']) > 2 else 'non-const'), k, n)

                def go():
                    m = M(p)
                    bas, bk = basis(m)
                    g = spline(m, 'A', n, bas, bk)
                    m.fact(lt(J, CD))
                    if len(f['params']) > 2:
                        co = m.temp(Arr(P(n) * CD * bdim(bk), ONE, lambda i, j: coef('A', i)))
                        r = m.load(m.call(f, [co, bas, P(n), CD, P(k), J]))
                    else:
                        r = m.load(m.call(f, [P(k), J], g))
                    rep.used(m)
                    rep.count('coefficient segments')
                    rep.eq('coefficient segment', loc(f), ins + ', size', r.rows * r.cols, bdim(bk), ctx=CTX[0])
                    m.fact(lt(I, bdim(bk)))
                    rep.eq('coefficient segment', loc(f), ins, r.lin(I), coef('A', P(k) * bdim(bk) * CD + bdim(bk) * J + I), ctx=CTX[0])
                wrap(rep, 'coefficient segment', loc(f), ins, go)
    for name, sh, want in (('get_interval_lengths', lambda n, bk: P(n), lambda i: tau('A', i)),
                           ('get_coefficients', lambda n, bk: P(n) * CD * bdim(bk), lambda i: coef('A', i)),
                           ('get_number_of_intervals', None, lambda n, bk: P(n)), ('get_basis_dim', None, lambda n, bk: bdim(bk)),
                           ('get_codom_dim', None, lambda n, bk: CD)):
        for f in list(p.find(GB + '::' + name)) + list(p.find('gsplines::functions::FunctionBase::' + name)):
            for n in (1, 3):
                ins = '%s of %d intervals' % (name, n)

                def go():
                    m = M(p)
                    bas, bk = basis(m)
                    g = spline(m, 'A', n, bas, bk)
                    r = m.load(m.call(f, [], g))
                    rep.used(m)
                    rep.count('accessors')
                    if sh is None:
                        rep.eq('accessor', loc(f), ins, r, want(n, bk), ctx=CTX[0])
                    else:
                        rep.eq('accessor', loc(f), ins + ', size', r.rows * r.cols, sh(n, bk), ctx=CTX[0])
                        m.fact(le(ZERO, I))
                        m.fact(lt(I, sh(n, bk)))
                        rep.eq('accessor', loc(f), ins, r.lin(I), want(I), ctx=CTX[0])
                wrap(rep, 'accessor', loc(f), ins, go)


def bdm(k, d, i, j):
    return Poly.at(atom('bdm', k, P(d), P(i), P(j)))


def out_arr(n, cd=CD):
    return Arr(P(n), cd, lambda i, j: Poly.at(atom('uninit', 'r', i, j)))


def check_structure(p, rep):
    """breakpoints, waypoints, constructors"""
    bp = virt(p, GB, 'get_domain_breakpoints')
    wp = virt(p, GB, 'get_waypoints')
    vi = virt(p, GB, 'value_impl')
    for n in (1, 2, 3, 4, 6) if rep.tier == 'quick' else range(1, 12):
        ins = '%d intervals' % n

        def go():
            m = M(p)
            bas, bk = basis(m)
            g = spline(m, 'A', n, bas, bk)
            r = m.load(m.call(bp, [], g))
            rep.count('breakpoint cases')
            rep.eq('number of breakpoints', loc(bp), ins, r.rows * r.cols, P(n + 1), ctx=CTX[0])
            for i in range(n + 1):
                rep.eq('breakpoint', loc(bp), '%s, breakpoint %d' % (ins, i), r.lin(P(i)), left('A', i), ctx=CTX[0])
            rep.used(m)
        wrap(rep, 'breakpoint', loc(bp), ins, go)
        if n > 3:
            continue

        def go():
            m = M(p)
            bas, bk = basis(m)
            g = spline(m, 'A', n, bas, bk)
            w = m.load(m.call(wp, [], g))
            rep.eq('number of waypoints', loc(wp), ins, w.rows, P(n + 1), ctx=CTX[0])
            rep.eq('waypoint dimension', loc(wp), ins, w.cols, CD, ctx=CTX[0])
            m.fact(lt(J, CD))
            for i in range(n + 1):
                o = m.temp(out_arr(1))
                t = left('A', i)
                m.call(vi, [m.temp(Arr(ONE, ONE, lambda a, b: t)), o], g)
                rep.eq('waypoint', loc(wp), '%s, waypoint %d' % (ins, i), w.at(P(i), J), m.load(o).at(ZERO, J), ctx=CTX[0])
            rep.used(m)
        wrap(rep, 'waypoint', loc(wp), ins, go)
    cs = [f for f in p.find(GB + '::GSplineBase') if len(f['params']) == 7]
    for f in cs:
        ins0 = 'moved data' if p.ty(f['params'][4]['t']).get('rref') else 'copied data'
        ni = sym('n', sort='int', nonneg=True)
        nc, nt = sym('nc', sort='int', nonneg=True), sym('nt', sort='int', nonneg=True)
        for desc, cond, bad in (('consistent sizes', lambda d: [eq(nc, ni * CD * d), eq(nt, ni)], False),
                                ('too few coefficients', lambda d: [lt(nc, ni * CD * d), eq(nt, ni)], True),
                                ('too many coefficients', lambda d: [lt(ni * CD * d, nc), eq(nt, ni)], True),
                                ('too few interval lengths', lambda d: [eq(nc, ni * CD * d), lt(nt, ni)], True),
                                ('too many interval lengths', lambda d: [eq(nc, ni * CD * d), lt(ni, nt)], True),
                                ('interval lengths and coefficients of fewer intervals', lambda d: [], True),
                                ('interval lengths and coefficients of more intervals', lambda d: [], True)):
            ins = 'construction, %s, %s' % (ins0, desc)
            m = M(p)

            def go(ni=ni, nt=nt):
                bas, bk = basis(m)
                m.fact(le(ONE, CD))
                if ' of ' in desc:
                    ni, nt = P(2), P(1 if 'fewer' in desc else 3)
                m.fact(le(ONE, ni))
                e = cond(bdim(bk))
                nn = [nc, nt]
                for c in e:
                    m.fact(c)
                co = m.temp(Arr(nt * CD * bdim(bk) if ' of ' in desc else ni * CD * bdim(bk) if 'coefficients' not in desc else nc, ONE, lambda i, j: coef('A', i)))
                ta = m.temp(Arr(ni if 'lengths' not in desc else nt, ONE, lambda i, j: tau('A', i)))
                rep.count('constructor cases')
                try:
                    m.new(GS, f, [pair(sym('a'), sym('b')), CD, ni, bas, co, ta, m.temp(Str())])
                    threw = False
                except Dead:
                    threw = True
                rep.used(m)
                if bad:
                    rejected(rep, m, 'inconsistent sizes are rejected', f, ins, threw, 'a spline with inconsistent sizes is constructed')
                else:
                    rep.ok(not threw and not m.thrown_any() if hasattr(m, 'thrown_any') else not threw, 'consistent sizes are accepted', loc(f), ins,
                           'a consistent spline is rejected')
            wrap(rep, 'construction', loc(f), ins, go)


def helper(p, name, cls='GSpline'):
    q = G + 'GSplineInheritanceHelper'
    out = []
    for f in p.fns.values():
        if f['n'] == name and f.get('clsfull', '').startswith(q + '<' + G) and cls in f['clsfull'].split('<')[1]:
            out.append(f)
    return out


def gs_cases(rep):
    return (1, 2, 3) if rep.tier == 'quick' else (1, 2, 3, 4)


def value_checks(m, rep, rule, f, ins, lv, want, n, name='A', cd=CD, dom=None, vcls=GB):
    """value of a spline strictly inside each of its n intervals"""
    p = m.prog
    vi = virt(p, vcls, 'value_impl')
    for k in range(n):
        sv = CTX[0]
        try:
            CTX[0] = Ctx(list(sv.facts)) if hasattr(sv, 'facts') else sv
            t = sym('t')
            o = m.temp(out_arr(1, cd))
            m.fact(lt(left(name, k), t))
            m.fact(lt(t, left(name, k + 1)))
            m.call(vi, [m.temp(Arr(ONE, ONE, lambda a, b: t)), o], lv)
            cs = [P(x) for x in range(int(cd.const()))] if cd.is_const() else [J]
            if not cd.is_const():
                m.fact(lt(J, cd))
            for c in cs:
                rep.eq(rule, loc(f), '%s, inside interval %d of %d, component %s' % (ins, k + 1, n, T.show(c)),
                       m.load(o).at(ZERO, c), want(k, t, c), ctx=CTX[0])
        finally:
            CTX[0] = sv


def check_deriv(p, rep):
    for f in helper(p, 'deriv_impl'):
        cases = [(x, P(y), d) for x in gs_cases(rep) for y in ((1, 2) if rep.tier == 'quick' else (1, 2, 3)) for d in range(0, 4)]
        cases += [(x, P(y), d) for x, y in ((1, 1), (2, 1)) for d in (range(4, 8) if rep.tier == 'quick' else range(4, 13))]
        cases += [(x, P(y), d) for x, y in ((5, 1), (6, 1), (2, 4), (4, 3)) for d in (0, 1, 2)]
        for n, cd, d in cases:
            if True:
                ins = 'derivative of degree %d, %d intervals, %s components' % (d, n, cd.const())
                m = M(p)

                def go():
                    bas, bk = basis(m)
                    g = spline(m, 'A', n, bas, bk, cd=cd)
                    m.fact(lt(P(d), bdim(bk)))
                    before = m.load(g)
                    r = m.call(f, [P(d)], g)
                    lv = r.lv if isinstance(r, Ptr) else m.temp(r)
                    rep.count('derivative cases')
                    c, a, b = meta_of(m, lv)
                    rep.eq('codomain dimension', loc(f), ins, c, cd, ctx=CTX[0])
                    rep.eq('domain', loc(f), ins, a, left('A', 0), ctx=CTX[0])
                    rep.eq('domain', loc(f), ins, b, left('A', n), ctx=CTX[0])

                    def want(k, t, J):
                        s = P(2) * (t - left('A', k)) * ipow(tau('A', k), -1) - ONE
                        b1, b2 = fresh_bv('s'), fresh_bv('q')
                        off = P(k) * bdim(bk) * cd + bdim(bk) * J
                        if d == 0:
                            return psum(b1, bdim(bk), coef('A', off + P(b1)) * bev(bk, s, tau('A', k), 0, P(b1)))
                        sc = ONE
                        for _ in range(d):
                            sc = sc * P(2) * ipow(tau('A', k), -1)
                        return psum(b1, bdim(bk), psum(b2, bdim(bk), bdm(bk, d, P(b1), P(b2)) * coef('A', off + P(b2)))
                                    * sc * bev(bk, s, tau('A', k), 0, P(b1)))
                    value_checks(m, rep, 'derivative value', f, ins, lv, want, n, cd=cd)
                    rep.used(m)
                wrap(rep, 'derivative value', loc(f), ins, go)


# ------------------------------------------------------------ vector space
def numspline(m, name, taus, bas, bk, cd, t0v=0, cls=GS):
    """numeric partition, symbolic coefficients"""
    p = m.prog
    n = len(taus)
    co = m.temp(Arr(P(n) * cd * bdim(bk), ONE, lambda i, j: coef(name, i)))

    def tv(i, j):
        i = P(i)
        r = P(taus[-1])
        for q in range(n - 2, -1, -1):
            r = ite(eq(i, P(q)), P(taus[q]), r)
        return r
    ta = m.temp(Arr(P(n), ONE, tv))
    d = pair(P(t0v), P(t0v) + P(sum(taus)))
    return m.new(cls, gs_ctor(p), [d, cd, P(n), bas, co, ta, m.temp(Str())])


F = T.Fraction
#: description, partition A, partition B, start of B, components of A and B, same basis, same space?
SPACES = [
    ('same space', (1, 2), (1, 2), 0, (2, 2), True, True),
    ('one interval of another length', (2,), (3,), 0, (1, 1), True, False),
    ('one interval with another start', (2,), (2,), 1, (2, 2), True, False),
    ('one interval with another codomain', (2,), (2,), 0, (1, 2), True, False),
    ('one interval with another basis', (2,), (2,), 0, (1, 1), False, False),
    ('six intervals with another start', (1, 2, 1, 3, 1, 2), (1, 2, 1, 3, 1, 2), 2, (1, 1), True, False),
    ('six intervals with another basis', (1, 2, 1, 3, 1, 2), (1, 2, 1, 3, 1, 2), 0, (1, 1), False, False),
    ('one interval', (2,), (2,), 0, (1, 1), True, True),
    ('different lengths', (1, 2), (2, 1), 0, (2, 2), True, False),
    ('one length different', (1, 2, 3), (1, 2, F(7, 2)), 0, (1, 1), True, False),
    ('first length different', (1, 2, 3), (F(3, 2), 2, F(5, 2)), 0, (1, 1), True, False),
    ('middle length different', (1, 2, 3), (1, F(5, 2), F(5, 2)), 0, (1, 1), True, False),
    ('same space of six intervals', (1, 2, 1, 3, 1, 2), (1, 2, 1, 3, 1, 2), 0, (1, 1), True, True),
    ('last two of six lengths different', (1, 2, 1, 3, 1, 2), (1, 2, 1, 3, 2, 1), 0, (1, 1), True, False),
    ('three components', (1, 2), (1, 2), 0, (3, 3), True, True),
    ('four components', (1, 2), (1, 2), 0, (4, 4), True, True),
    ('different number of intervals', (1, 2), (1, 1, 1), 0, (2, 2), True, False),
    ('more intervals on the left', (1, 1, 1), (1, 2), 0, (2, 2), True, False),
    ('different start', (1, 2), (1, 2), 1, (2, 2), True, False),
    ('different codomain', (1, 2), (1, 2), 0, (2, 3), True, False),
    ('different codomain, exchanged', (1, 2), (1, 2), 0, (3, 2), True, False),
    ('different basis', (1, 2), (1, 2), 0, (2, 2), False, False),
]


def two(m, sp):
    desc, ta, tb, s, (ca, cb), sameb, same = sp
    bas, bk = basis(m)
    b2, k2 = (bas, bk) if sameb else basis(m, 'C')
    if not sameb:
        m.fact(eq(bdim(k2), bdim(bk)))
    return numspline(m, 'A', ta, bas, bk, P(ca)), numspline(m, 'B', tb, b2, k2, P(cb), s), bk


def num_value(name, bk, taus, k, t, j, cd):
    l = P(sum(taus[:k]))
    s = P(2) * (t - l) * P(F(1, 1) / F(taus[k])) - ONE
    b = fresh_bv('s')
    return lambda cf: psum(b, bdim(bk), cf(P(k) * bdim(bk) * cd + bdim(bk) * j + P(b)) * bev(bk, s, P(taus[k]), 0, P(b)))


def inside(m, rep, rule, f, ins, lv, taus, cd, bk, cf):
    vi = virt(m.prog, GB, 'value_impl')
    for k in range(len(taus)):
        sv = CTX[0]
        try:
            CTX[0] = Ctx(list(sv.facts))
            t = sym('t')
            m.fact(lt(P(sum(taus[:k])), t))
            m.fact(lt(t, P(sum(taus[:k + 1]))))
            o = m.temp(out_arr(1, P(cd)))
            m.call(vi, [m.temp(Arr(ONE, ONE, lambda a, b: t)), o], lv)
            for c in range(cd):
                rep.eq(rule, loc(f), '%s, interval %d, component %d' % (ins, k, c), m.load(o).at(ZERO, P(c)),
                       num_value('A', bk, taus, k, t, P(c), P(cd))(cf), ctx=CTX[0])
        finally:
            CTX[0] = sv


def rvalue(f, p, i):
    return bool(p.ty(f['params'][i]['t']).get('rref'))


def check_space(p, rep):
    """+, -, +=, -=, scaling by a number, negation, same_vector_space"""
    sv = virt(p, GB, 'same_vector_space')
    for sp in SPACES:
        m = M(p)

        def go():
            a, b, bk = two(m, sp)
            r = m.load(m.call(sv, [b], a))
            rep.count('same-space cases')
            rep.eq('same vector space', loc(sv), sp[0], tobool(r), TRUE if sp[-1] else FALSE, ctx=CTX[0])
            rep.used(m)
        wrap(rep, 'same vector space', loc(sv), sp[0], go)
    ops = []
    for nm, sg in (('operator+', 1), ('operator-', -1), ('operator+=', 1), ('operator-=', -1)):
        for f in helper(p, nm):
            if len(f['params']) == 1:
                ops.append((nm, sg, f))
    for nm, sg, f in ops:
        form = '%s%s %s %s' % ('moved ' if f.get('rq') == '&&' else '', 'spline', nm, 'moved spline' if rvalue(f, p, 0) else 'spline')
        for sp in SPACES:
            ins = '%s, %s' % (form, sp[0])
            m = M(p)

            def go():
                a, b, bk = two(m, sp)
                a0, b0 = m.load(a), m.load(b)
                keep = {'a': not (nm.endswith('=') or f.get('rq') == '&&'), 'b': not rvalue(f, p, 0)}
                rep.count('vector-space cases')
                try:
                    r = m.call(f, [b], a)
                    threw = False
                except Dead:
                    threw = True
                rep.used(m)
                if not sp[-1]:
                    rejected(rep, m, 'operands of different spaces are rejected', f, ins, threw, 'the operation proceeds on splines of different vector spaces')
                    return
                if threw:
                    rep.add('bad', 'operands of one space are accepted', loc(f), ins, 'the operation throws on splines of one vector space')
                    return
                rep.add('ok', 'operands of one space are accepted', loc(f), ins)
                lv = a if nm.endswith('=') else (r if isinstance(r, LV) else m.temp(r))
                inside(m, rep, 'sum or difference', f, ins, lv, sp[1], sp[4][0], bk,
                       lambda i: coef('A', i) + P(sg) * coef('B', i))
                if keep['a']:
                    inside(m, rep, 'operand unchanged', f, ins + ', left operand', a, sp[1], sp[4][0], bk, lambda i: coef('A', i))
                if keep['b']:
                    inside(m, rep, 'operand unchanged', f, ins + ', right operand', b, sp[1], sp[4][0], bk, lambda i: coef('B', i))
            wrap(rep, 'sum or difference', loc(f), ins, go)
    for nm, sg, f in ops:
        if f.get('rq') == '&&' or rvalue(f, p, 0):
            continue
        sp = SPACES[0]
        ins = 'spline %s itself' % nm
        m = M(p)

        def go():
            a, b, bk = two(m, sp)
            rep.count('vector-space cases')
            try:
                r = m.call(f, [a], a)
            except Dead:
                rep.add('bad', 'operands of one space are accepted', loc(f), ins, 'the operation throws')
                return
            rep.used(m)
            lv = a if nm.endswith('=') else (r if isinstance(r, LV) else m.temp(r))
            inside(m, rep, 'sum or difference', f, ins, lv, sp[1], sp[4][0], bk, lambda i: P(1 + sg) * coef('A', i))
            if not nm.endswith('='):
                inside(m, rep, 'operand unchanged', f, ins, a, sp[1], sp[4][0], bk, lambda i: coef('A', i))
        wrap(rep, 'sum or difference', loc(f), ins, go)
    for f in p.find(G + 'operator*') + p.find(G + 'operator-'):
        ty = [p.ty(x)['s'] for x in f['pt']]
        gi = [i for i, x in enumerate(ty) if 'GSpline' in x and 'functions' not in x]
        if len(gi) != 1 or f.get('clsfull') or not all('double' in x or 'GSpline' in x for x in ty) or len(ty) > 2:
            continue
        neg = f['n'] == 'operator-'
        if neg and len(ty) != 1:
            continue
        for sp, al in [(sp, sym('alpha')) for sp in SPACES if sp[-1]] + ([] if neg else [(sp, P(x)) for x in (0, 1, -1, 2) for sp in SPACES if sp[-1] and sp[4][0] != 4]):
            ins = '%s(%s), %s%s' % (f['n'], ', '.join(ty), sp[0], ', number %s' % al.const() if al.is_const() else '')
            m = M(p)

            def go():
                a, b, bk = two(m, sp)
                args = [a if i in gi else al for i in range(len(ty))]
                r = m.call(f, args)
                rep.used(m)
                rep.count('vector-space cases')
                lv = r if isinstance(r, LV) else m.temp(r)
                inside(m, rep, 'scalar multiple', f, ins, lv, sp[1], sp[4][0], bk, lambda i: (P(-1) if neg else al) * coef('A', i))
                if not rvalue(f, p, gi[0]):
                    inside(m, rep, 'operand unchanged', f, ins, a, sp[1], sp[4][0], bk, lambda i: coef('A', i))
            wrap(rep, 'scalar multiple', loc(f), ins, go)


def check_equality(p, rep):
    f = virt(p, GB, 'operator==')
    g = virt(p, GB, 'operator!=')
    F_ = [('identical', {}, True),
          ('one coefficient differs', {'c': 1}, False), ('last coefficient differs', {'c': 3}, False), ('first coefficient differs', {'c': 0}, False),
          ('an interval length differs', {'tb': (1, 3)}, False), ('start differs', {'s': 1}, False), ('basis differs', {'b': 1}, False),
          ('number of intervals differs', {'tb': (1, 1, 1)}, False),
          ('all coefficients zero on one side', {'z': 1}, False)]
    six = (1, 2, 1, 3, 1, 2)
    F_ += [('identical, six intervals', {'ta': six, 'tb': six}, True), ('identical, three components', {'cd': 3}, True),
           ('lengths five and six differ', {'ta': six, 'tb': six[:4] + (2, 1)}, False)]
    F_ += [('coefficient %d differs, six intervals' % i, {'ta': six, 'tb': six, 'c': i}, False) for i in range(12)]
    F_ += [('coefficient %d differs, three components' % i, {'cd': 3, 'c': i}, False) for i in range(12)]
    F_ += [('components differ', {'cd': 2, 'cdb': 1, 'tb': (1, 2)}, False), ('components and intervals exchanged', {'cd': 2, 'ta': (3,), 'cdb': 1, 'tb': (1, 2)}, False)]
    for desc, kw, same in F_:
        m = M(p)

        def go():
            bas, bk = basis(m)
            m.bconst = {bk: 2}
            b2, k2 = (basis(m, 'C') if kw.get('b') else (bas, bk))
            m.bconst[k2] = 2

            def mk(ta, s, b, bump, cd=1):
                n = len(ta)

                def tbl(xs):
                    def at(i, j):
                        r = P(xs[-1])
                        for q in range(len(xs) - 2, -1, -1):
                            r = ite(eq(P(i), P(q)), P(xs[q]), r)
                        return r
                    return Arr(P(len(xs)), ONE, at)
                cf = [0 if bump == 'z' else 2 + i + (1 if i == bump else 0) for i in range(2 * n * cd)]
                return m.new(GS, gs_ctor(p), [pair(P(s), P(s + sum(ta))), P(cd), P(n), b, m.temp(tbl(cf)), m.temp(tbl(ta)), m.temp(Str())])
            a = mk(kw.get('ta', (1, 2)), 0, bas, None, kw.get('cd', 1))
            b = mk(kw.get('tb', (1, 2)), kw.get('s', 0), b2, 'z' if kw.get('z') else kw.get('c'), kw.get('cdb', kw.get('cd', 1)))
            rep.count('equality cases')
            for x, y, o in ((a, b, ''), (b, a, ', exchanged')):
                r = m.load(m.call(f, [y], x))
                rep.eq('equality', loc(f), desc + o, tobool(r), TRUE if same else FALSE, ctx=CTX[0])
                r = m.load(m.call(g, [y], x))
                rep.eq('inequality', loc(g), desc + o, tobool(r), FALSE if same else TRUE, ctx=CTX[0])
            rep.used(m)
        wrap(rep, 'equality', loc(f), desc, go)


def opt(m, v):
    return m.temp(Rec('std::optional', {'has': TRUE if v is not None else FALSE, 'v': v if v is not None else Opq('empty optional')}))


def candidates(x):
    """the terms of which a (nested) maximum is the largest, positive factors distributed"""
    x = P(x)
    if len(x.m) != 1:
        return {x}
    (mo, c), = x.m.items()
    mx = [(a, e) for a, e in mo if a.kind == 'max']
    if len(mx) != 1 or c <= 0 or isinstance(mx[0][1], Poly) or mx[0][1] <= 0:
        return {x}
    a, e = mx[0]
    rest = Poly({tuple(y for y in mo if y[0] is not a): c})
    out = set()
    for y in a.args:
        for z in candidates(y):
            out |= candidates((T.ppow(z, P(e)) if e != 1 else z) * rest)
    return out


def eq_max(rep, rule, where, ins, got, want, ctx):
    if isinstance(got, Poly) and candidates(got) - {ZERO} == candidates(want) - {ZERO}:
        rep.add('ok', rule, where, ins)
    else:
        rep.eq(rule, where, ins, got, want, ctx=ctx)


def check_scaling(p, rep):
    """new execution time: same shape, run over the new duration"""
    Tn = sym('T')
    for f in helper(p, 'linear_scaling_new_execution_time'):
        for ta, cd in (((2,), 1), ((1, 2), 2), ((1, 2, F(1, 2)), 1), ((1, 2, 1, F(1, 2), 3, 1), 1), ((1, 2), 4)):
            n = len(ta)
            ins = 'new duration, %d intervals, %d components' % (n, cd)
            m = M(p)

            def go():
                bas, bk = basis(m)
                g = numspline(m, 'A', ta, bas, bk, P(cd), 3)
                m.fact(le(ONE, Tn))
                r = m.call(f, [Tn], g)
                lv = r if isinstance(r, LV) else m.temp(r)
                rep.count('scaling cases')
                rep.used(m)
                c, a, b = meta_of(m, lv)
                rep.eq('codomain dimension', loc(f), ins, c, P(cd), ctx=CTX[0])
                rep.eq('domain', loc(f), ins, a, P(3), ctx=CTX[0])
                rep.eq('domain', loc(f), ins, b, P(3) + Tn, ctx=CTX[0])
                fac = Tn * P(1 / F(sum(ta)))
                vi = virt(p, GB, 'value_impl')
                for k in range(n):
                    sv = CTX[0]
                    CTX[0] = Ctx(list(sv.facts))
                    try:
                        t = sym('t')
                        lo, hi = P(3) + fac * P(sum(ta[:k])), P(3) + fac * P(sum(ta[:k + 1]))
                        m.fact(lt(lo, t))
                        m.fact(lt(t, hi))
                        o = m.temp(out_arr(1, P(cd)))
                        m.call(vi, [m.temp(Arr(ONE, ONE, lambda a, b: t)), o], lv)
                        tk = fac * P(ta[k])
                        s = P(2) * (t - lo) * ipow(tk, -1) - ONE
                        for c in range(cd):
                            b1 = fresh_bv('s')
                            w = psum(b1, bdim(bk), coef('A', P(k * cd) * bdim(bk) + bdim(bk) * P(c) + P(b1)) * bev(bk, s, tk, 0, P(b1)))
                            rep.eq('scaled value', loc(f), '%s, interval %d, component %d' % (ins, k, c), m.load(o).at(ZERO, P(c)), w, ctx=CTX[0])
                    finally:
                        CTX[0] = sv
            wrap(rep, 'scaled value', loc(f), ins, go)
        for v in (0, -1, F(-1, 10)):
            ins = 'new duration %s' % v
            m = M(p)

            def go():
                bas, bk = basis(m)
                g = numspline(m, 'A', (1, 2), bas, bk, ONE, 0)
                try:
                    m.call(f, [P(v)], g)
                    threw = False
                except Dead:
                    threw = True
                rep.used(m)
                rejected(rep, m, 'non-positive duration is rejected', f, ins, threw, 'a spline with non-positive duration is returned')
            wrap(rep, 'non-positive duration is rejected', loc(f), ins, go)
    fs = helper(p, 'linear_scaling_new_execution_time_max_velocity_max_acceleration')
    for f in fs:
        cfg = [((2,), 1, 0, 1), ((F(1, 2), F(3, 2)), 2, 0, 1), ((F(1, 2), 1, F(3, 2)), 3, 2, F(4, 5)), ((F(1, 2), F(3, 2)), 4, -1, F(3, 4))]
        if rep.tier != 'quick':
            cfg += [((F(1, 2), F(3, 2), 1, 1, F(1, 3)), 2, 0, F(4, 5)), ((F(1, 2), F(3, 2)), 6, -1, F(3, 4)), ((1,), 2, 0, F(1, 9))]
        parallel(rep, [(f, c, hv, ha) for c in cfg for hv, ha in ((True, False), (False, True), (True, True), (False, False))], lambda rep, t: one_bound(p, rep, *t))


def one_bound(p, rep, f, c, hv, ha):
    """velocity and/or acceleration bounds"""
    ta, cd, st, dt = c
    isvec = 'vector' in p.ty(f['pt'][0])['s']
    ins = '%d components, %d intervals, start %s, step %s, speed limits %s%s, %s bounds' % (
        cd, len(ta), st, dt, 'velocity' if hv else '', ' acceleration' if ha else '', 'per-component' if isvec else 'scalar')
    m = M(p)

    def go():
        bas, bk = basis(m)
        dim = 4
        m.bconst, m.bmono = {bk: dim}, {bk}
        m.fact(eq(bdim(bk), P(dim)))
        cf = m.temp(Arr(P(dim * cd * len(ta)), ONE, lambda i, j: coef('A', i)))
        tt = m.temp(Arr(P(len(ta)), ONE, lambda i, j: pick(i, ta)))
        g = m.new(GS, gs_ctor(p), [pair(P(st), P(st + sum(ta))), P(cd), P(len(ta)), bas, cf, tt, m.temp(Str())])

        def bound(x):
            if isvec:
                for i in range(cd):
                    m.fact(lt(ZERO, sym('%s%d' % (x, i))))
                return opt(m, Arr(P(cd), ONE, lambda i, j: pick(i, [sym('%s%d' % (x, q)) for q in range(cd)])))
            m.fact(lt(ZERO, sym(x + '0')))
            return opt(m, sym(x + '0'))
        vb = bound('vb') if hv else opt(m, None)
        ab = bound('ab') if ha else opt(m, None)
        rep.count('scaling cases')
        try:
            r = m.call(f, [vb, ab, P(dt)], g)
        except Dead:
            rep.ok(not hv and not ha, 'bounds are honoured', loc(f), ins, 'throws although a bound is given')
            return
        if not hv and not ha:
            rep.add('bad', 'missing bounds are rejected', loc(f), ins, 'no bound given, yet a spline is returned')
            return
        rep.used(m)
        lv = r if isinstance(r, LV) else m.temp(r)
        o = m.load(lv)
        # the grid of the given step: sample times relative to the start, none of them an interior breakpoint
        ns = int(sum(ta) / dt)
        def dv(t, c, d):
            k = 0
            while k + 1 < len(ta) and t > sum(ta[:k + 1]):
                k += 1
            sg = 2 * F(t - sum(ta[:k])) / ta[k] - 1
            r = ZERO
            for b in range(d, dim):
                q = F(1)
                for y in range(d):
                    q *= b - y
                r = r + P(q * sg ** (b - d) * (F(2) / ta[k]) ** d) * coef('A', P(k * dim * cd + c * dim + b))
            return r
        xs = []
        for t in [F(sum(ta)) * q / ns for q in range(ns + 1)]:
            for c in range(cd):
                if hv:
                    xs.append(sfun('abs', dv(t, c, 1)) * ipow(sym('vb%d' % (c if isvec else 0)), -1))
                if ha:
                    xs.append(T.ppow(sfun('abs', dv(t, c, 2)) * ipow(sym('ab%d' % (c if isvec else 0)), -1), P(F(1, 2))))
        fac = xs[0]
        for x in xs[1:]:
            fac = fun('max', fac, x)
        fac = fun('max', fac, ZERO)
        c, a, b = meta_of(m, lv)
        rep.eq('domain', loc(f), ins, a, P(st), ctx=CTX[0])
        eq_max(rep, 'bounds are honoured', loc(f), ins + ', end of domain', b - P(st), fac * P(sum(ta)), ctx=CTX[0])
        gl = virt(p, GB, 'get_interval_lengths')
        il = m.load(m.call(gl, [], lv))
        for k in range(len(ta)):
            eq_max(rep, 'bounds are honoured', loc(f), ins + ', length of interval %d' % k, il.lin(P(k)), fac * P(ta[k]), ctx=CTX[0])
        gc = virt(p, GB, 'get_coefficients')
        cc = m.load(m.call(gc, [], lv))
        rep.eq('coefficients kept', loc(f), ins, cc.lin(I), coef('A', I), ctx=CTX[0])
    wrap(rep, 'bounds are honoured', loc(f), ins, go)
