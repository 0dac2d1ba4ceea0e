"""Collocation (Gauss-Lobatto-Lagrange) splines: node values, node-wise algebra, approximation, assignment."""
from scen import *
from report import *
import rules_gs as G
import rules_basis as B
from rules_elem import wrap, meta_of, came_through
from rules_gs import GB, coef, tau, out_arr
from rules_alg import I, J
from absfun import pick
from fractions import Fraction as Fr

C = 'gsplines::collocation::'
GL = C + 'GaussLobattoLagrangeSpline'
NGL = (2, 3)


def ctor(p, pred):
    for f in p.find(GL + '::GaussLobattoLagrangeSpline'):
        if pred([p.ty(x)['s'] for x in f['pt']], f):
            return f
    raise Unsupported('constructor')


def taus(name, n):
    return [P(Fr(2 * i + 1, 2)) for i in range(n)]


def gll(m, name, n, ng, cd, ts=None, t0=Fr(1, 2), rv=False):
    B.gll_handlers(m)
    f = ctor(m.prog, lambda ts_, f: len(ts_) == 6 and ('&&' in ts_[4]) == rv)
    ts = [P(x) for x in (ts or taus(name, n))]
    co = m.temp(Arr(P(n * ng * cd), ONE, lambda i, j: coef(name, i)))
    ta = m.temp(Arr(P(n), ONE, lambda i, j: pick(i, ts)))
    e = P(t0)
    for x in ts:
        e = e + x
    return m.new(GL, f, [pair(P(t0), e), P(cd), P(n), P(ng), co, ta])


def node(name, n, ng, cd, k, i, c):
    """value of component c at node i of interval k"""
    return coef(name, P(k * ng * cd + c * ng + i))


def obs(m, lv):
    """coefficients, interval lengths, domain, dimension"""
    o = m.load(lv)
    p = m.prog
    co = m.load(m.call(p.find(GB + '::get_coefficients')[0], [], lv))
    ta = m.load(m.call(p.find(GB + '::get_interval_lengths')[0], [], lv))
    c, a, b = meta_of(m, lv)
    return co, ta, c, a, b


def compare_obs(m, rep, rule, f, ins, lv, want, n, ng, cd, ts, t0):
    co, ta, c, a, b = obs(m, lv)
    rep.eq(rule, loc(f), ins + ', codomain dimension', c, P(cd), ctx=CTX[0])
    rep.eq(rule, loc(f), ins + ', start of the domain', a, P(t0), ctx=CTX[0])
    e = P(t0)
    for x in ts:
        e = e + P(x)
    rep.eq(rule, loc(f), ins + ', end of the domain', b, e, ctx=CTX[0])
    rep.eq(rule, loc(f), ins + ', number of coefficients', co.rows * co.cols, P(n * ng * cd), ctx=CTX[0])
    rep.eq(rule, loc(f), ins + ', number of intervals', ta.rows * ta.cols, P(n), ctx=CTX[0])
    for i in range(n):
        rep.eq(rule, loc(f), '%s, length of interval %d' % (ins, i), ta.lin(P(i)), P(ts[i]), ctx=CTX[0])
    for k in range(n):
        for q in range(cd):
            for i in range(ng):
                g = topoly(co.lin(P(k * ng * cd + q * ng + i)))
                w = P(want(k, i, q))
                ins2 = '%s, interval %d, component %d, node %d' % (ins, k, q, i)
                B.eqr(rep, rule, loc(f), ins2, g, w, CTX[0])


def ops(p, name):
    return [f for f in list(p.find(C + name)) + list(p.find(GL + '::' + name)) if any(GL.split('::')[-1] in p.ty(x)['s'] for x in f['pt']) or f.get('cls')]


def sizes(rep):
    return [(1, 2, 1), (2, 2, 1), (2, 3, 2), (3, 2, 2), (1, 3, 3), (4, 2, 1), (5, 2, 1), (6, 3, 1), (2, 2, 4)] if rep.tier == 'quick' else [(n, g, c) for n in (1, 2, 3, 4) for g in (2, 3) for c in (1, 2, 3)] + [(5, 2, 1), (6, 3, 1), (9, 2, 2), (2, 3, 5)]


def result(m, r):
    if isinstance(r, Rec):
        return m.temp(r)
    return r


def check_unary(p, rep):
    """-s, number*s, number/s, pow, vector +- s"""
    al = sym('alpha')
    fs = [g for nm in ('operator-', 'operator*', 'operator/', 'operator+', 'pow') for g in ops(p, nm)]

    def one(rep, f):
        ts = [p.ty(x)['s'] for x in f['pt']]
        cls = ['S' if 'GaussLobatto' in t else 'V' if 'Vector' in t or 'Matrix' in t else 'd' for t in ts]
        if f.get('cls') or cls.count('S') != 1 or f['file'].find('GaussLobatto') < 0:
            return
        pos = cls.index('S')
        rv = '&&' in ts[pos]
        op = f['n']
        for n, ng, cd in sizes(rep):
            for vd in ((cd, cd + 1) if 'V' in cls else (None,)):
                ins = '%s(%s), %d intervals, %d nodes, %d components%s' % (op, ', '.join(ts), n, ng, cd, '' if vd is None else ', vector of size %d' % vd)

                def go():
                    m = M(p)
                    s = gll(m, 'A', n, ng, cd)
                    before = m.load(s)
                    other = None
                    if 'V' in cls:
                        other = m.temp(Arr(P(vd), ONE, lambda i, j: Poly.at(atom('app', 'vec', P(i)))))
                    elif 'd' in cls:
                        other = al
                    if op in ('operator/', 'pow'):
                        for i in range(n * ng * cd):
                            m.fact(lt(ZERO, coef('A', i)))
                    args = [s if c == 'S' else other for c in cls]
                    bad = (vd is not None and vd != cd) or (op in ('operator/', 'pow') and cd != 1)
                    rep.count('operations with one spline')
                    try:
                        r = result(m, m.call(f, args))
                    except Dead:
                        ok = bad and all('invalid_argument' in t[1] for t in m.throws)
                        rep.add('ok' if ok else 'bad', 'unsuitable operands are rejected' if bad else 'suitable operands are accepted', loc(f), ins, '' if ok else 'throws %s' % (m.throws and m.throws[0][1]))
                        return
                    if bad:
                        accepted(rep, m, f, ins)
                        return
                    rep.used(m)

                    def want(k, i, c):
                        x = node('A', n, ng, cd, k, i, c)
                        v = Poly.at(atom('app', 'vec', P(c)))
                        if op == 'operator*':
                            return al * x
                        if op == 'operator/':
                            return al * T.inv(x)
                        if op == 'pow':
                            return T.ppow(x, al)
                        if len(cls) == 1:
                            return -x
                        if op == 'operator+':
                            return x + v
                        return x - v if pos == 0 else v - x
                    compare_obs(m, rep, 'node-wise operation', f, ins, r, want, n, ng, cd, taus('A', n), Fr(1, 2))
                    if not rv:
                        compare_obs(m, rep, 'operand unchanged', f, ins, s, lambda k, i, c: node('A', n, ng, cd, k, i, c), n, ng, cd, taus('A', n), Fr(1, 2))
                wrap(rep, 'node-wise operation', loc(f), ins, go)
    parallel(rep, fs, one)


def check_product(p, rep):
    """product of two collocation splines"""
    fs = [f for f in ops(p, 'operator*') if f.get('cls') and len(f['pt']) == 1]

    def one(rep, t):
        f, sz = t
        ts = p.ty(f['pt'][0])['s']
        ra, rb = '&&' in (f.get('rq') or ''), '&&' in ts
        for n, ng in (sz,):
            for ca, cb in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
                for diff in (None, 'nodes', 'intervals', 'lengths', 'domain'):
                    if diff and (ca, cb) != (1, 2):
                        continue
                    if diff == 'lengths' and n == 1:
                        continue
                    ins = 'product(%s %s), %d intervals, %d nodes, %d and %d components%s' % (f.get('rq') or '', ts, n, ng, ca, cb, ', different ' + diff if diff else '')

                    def go():
                        m = M(p)
                        a = gll(m, 'A', n, ng, ca)
                        n2, g2, t2, s2 = n, ng, taus('A', n), Fr(1, 2)
                        if diff == 'nodes':
                            g2 = 5 - ng
                        if diff == 'intervals':
                            n2 = n + 1
                            t2 = [P(x) for x in ([sum((y.const() for y in t2), Fr(0)) / n2] * n2)]
                        if diff == 'lengths':
                            t2 = [t2[1], t2[0]] + t2[2:]
                        if diff == 'domain':
                            s2 = Fr(3, 2)
                        b = gll(m, 'B', n2, g2, cb, ts=t2, t0=s2)
                        bad = diff is not None or (ca != 1 and cb != 1)
                        rep.count('products')
                        try:
                            r = result(m, m.call(f, [b], a))
                        except Dead:
                            ok = bad and all('invalid_argument' in t[1] for t in m.throws)
                            rep.add('ok' if ok else 'bad', 'unsuitable operands are rejected' if bad else 'suitable operands are accepted', loc(f), ins, '' if ok else 'throws %s' % (m.throws and m.throws[0][1]))
                            return
                        if bad:
                            accepted(rep, m, f, ins)
                            return
                        rep.used(m)
                        cd = max(ca, cb)
                        compare_obs(m, rep, 'product at the nodes', f, ins, r,
                                    lambda k, i, c: node('A', n, ng, ca, k, i, c if ca > 1 else 0) * node('B', n, ng, cb, k, i, c if cb > 1 else 0),
                                    n, ng, cd, taus('A', n), Fr(1, 2))
                        if not ra:
                            compare_obs(m, rep, 'operand unchanged', f, ins + ', left', a, lambda k, i, c: node('A', n, ng, ca, k, i, c), n, ng, ca, taus('A', n), Fr(1, 2))
                        if not rb:
                            compare_obs(m, rep, 'operand unchanged', f, ins + ', right', b, lambda k, i, c: node('B', n, ng, cb, k, i, c), n, ng, cb, taus('A', n), Fr(1, 2))
                    wrap(rep, 'product at the nodes', loc(f), ins, go)
    parallel(rep, [(f, sz) for f in fs for sz in ((1, 2), (2, 2), (2, 3), (3, 2))], one)


def nodes(ng):
    return [Fr(x) for x in B.GLL[ng][0]]


def pts_of(ts, t0, ng):
    """physical nodes per interval"""
    out, a = [], P(t0)
    for x in ts:
        out.append([a + (P(z) + ONE) * P(x) * P(Fr(1, 2)) for z in nodes(ng)])
        a = a + P(x)
    return out


def throws(rep, m, f, ins, bad, kinds=('invalid_argument',)):
    """a Dead outcome: right only for unsuitable operands"""
    ok = bad and bool(m.throws) and all(any(k in t[1] for k in kinds) for t in m.throws)
    rep.add('ok' if ok else 'bad', 'unsuitable operands are rejected' if bad else 'suitable operands are accepted', loc(f), ins,
            '' if ok else 'throws %s' % (m.throws[:1],))


def accepted(rep, m, f, ins):
    """unsuitable operands came through: a violation if some operands of this shape meet none of the guards"""
    v = came_through(m)
    rep.add(v, 'unsuitable operands are rejected', loc(f), ins, 'accepted' + (' unless %s' % ', '.join(str(t[:2]) for t in m.throws[:2]) if m.throws else ''))


def check_norm(p, rep):
    """norm(s): Euclidean norm at every node"""
    fs = [f for f in ops(p, 'norm') if len(f['pt']) == 1]

    def one(rep, t):
        f, (n, ng, cd) = t
        ins = 'norm, %d intervals, %d nodes, %d components' % (n, ng, cd)

        def go():
            m = M(p)
            s = gll(m, 'A', n, ng, cd)
            rep.count('norms')
            r = result(m, m.call(f, [s]))
            rep.used(m)
            co, ta, c, a, b = obs(m, r)

            def want(k, i, q):
                w = ZERO
                for e in range(cd):
                    x = node('A', n, ng, cd, k, i, e)
                    w = w + x * x
                return w
            # compare squares: the coefficient is the root of the sum of squares
            for k in range(n):
                for i in range(ng):
                    g = topoly(co.lin(P(k * ng + i)))
                    rep.eq('norm at the nodes', loc(f), '%s, interval %d, node %d' % (ins, k, i), g, T.ppow(want(k, i, 0), P(Fr(1, 2))), ctx=CTX[0])
            rep.eq('norm at the nodes', loc(f), ins + ', codomain dimension', c, ONE, ctx=CTX[0])
            rep.eq('norm at the nodes', loc(f), ins + ', start of the domain', a, P(Fr(1, 2)), ctx=CTX[0])
            rep.eq('norm at the nodes', loc(f), ins + ', end of the domain', b, P(Fr(1, 2)) + sum(taus('A', n), ZERO), ctx=CTX[0])
            for i in range(n):
                rep.eq('norm at the nodes', loc(f), '%s, length of interval %d' % (ins, i), ta.lin(P(i)), taus('A', n)[i], ctx=CTX[0])
        wrap(rep, 'norm at the nodes', loc(f), ins, go)
    parallel(rep, [(f, s) for f in fs for s in sizes(rep)], one)


def check_value_at(p, rep):
    """value_at(i): the i-th collocation value; indices past the end are rejected"""
    fs = p.find(GL + '::value_at')
    gd = p.find(GL + '::get_domain_discretization')

    def one(rep, sz):
        n, ng, cd = sz
        for f in fs:
            for i in range(n * ng + 2):
                ins = 'value_at(%d), %d intervals, %d nodes, %d components' % (i, n, ng, cd)

                def go():
                    m = M(p)
                    s = gll(m, 'A', n, ng, cd)
                    rep.count('node reads')
                    try:
                        r = m.call(f, [P(i)], s)
                    except Dead:
                        return throws(rep, m, f, ins, i >= n * ng)
                    if i >= n * ng:
                        return accepted(rep, m, f, ins)
                    rep.used(m)
                    v = m.load(r) if isinstance(r, LV) else r
                    rep.eq('value at a node', loc(f), ins + ', size', v.rows * v.cols, P(cd), ctx=CTX[0])
                    for c in range(cd):
                        rep.eq('value at a node', loc(f), '%s, component %d' % (ins, c), v.lin(P(c)), node('A', n, ng, cd, i // ng, i % ng, c), ctx=CTX[0])
                wrap(rep, 'value at a node', loc(f), ins, go)
        for f in gd:
            ins = 'get_domain_discretization, %d intervals, %d nodes' % (n, ng)

            def go2():
                m = M(p)
                s = gll(m, 'A', n, ng, cd)
                rep.count('discretizations')
                r = m.call(f, [], s)
                rep.used(m)
                v = m.load(r) if isinstance(r, LV) else r
                rep.eq('collocation points', loc(f), ins + ', size', v.rows * v.cols, P(n * ng), ctx=CTX[0])
                ps = pts_of(taus('A', n), Fr(1, 2), ng)
                for k in range(n):
                    for i in range(ng):
                        B.eqr(rep, 'collocation points', loc(f), '%s, interval %d, node %d' % (ins, k, i), topoly(v.lin(P(k * ng + i))), ps[k][i], CTX[0])
            wrap(rep, 'collocation points', loc(f), ins, go2)
    parallel(rep, sizes(rep), one)


def fun_arg(m, name, t0, t1, cd):
    k = fnkey(name)
    m.fconst = dict(getattr(m, 'fconst', {}))
    m.fconst[k] = (P(t0), P(t1), P(cd))
    return m.temp(Abs('fun', k)), k


def fval(key, t, c):
    import values as V
    return V.val(key, P(t), P(c))


def check_approx(p, rep):
    """approximate, construction from a function, identity, zero spline: values of the function at the nodes of equal intervals"""
    def is_fun(t):
        return 'FunctionBase' in t
    aps = [f for f in p.find(GL + '::approximate') if len(f['pt']) == 3]
    cts = [f for f in p.find(GL + '::GaussLobattoLagrangeSpline') if len(f['pt']) == 3 and is_fun(p.ty(f['pt'][0])['s'])]
    ids = p.find(GL + '::identity')
    zs = [f for f in p.find(GL + '::GaussLobattoLagrangeSpline') if len(f['pt']) == 4]

    def one(rep, t):
        kind, f, (n, ng, cd) = t
        if kind == 'identity' and cd != 1:
            return
        ins = '%s, %d intervals, %d nodes, %d components' % (kind, n, ng, cd)
        t0, t1 = Fr(1, 2), Fr(17, 4)

        def go():
            m = M(p)
            B.gll_handlers(m)
            rep.count('approximations')
            a, k = fun_arg(m, 'F', t0, t1, cd)
            if kind == 'approximate':
                r = result(m, m.call(f, [a, P(ng), P(n)]))
            elif kind == 'construction from a function':
                r = m.new(GL, f, [a, P(n), P(ng)])
            elif kind == 'identity':
                r = result(m, m.call(f, [pair(t0, t1), P(ng), P(n)]))
            else:
                r = m.new(GL, f, [pair(t0, t1), P(cd), P(n), P(ng)])
            rep.used(m)
            ts = [P((t1 - t0) / n)] * n
            ps = pts_of(ts, t0, ng)

            def want(kk, i, c):
                x = ps[kk][i]
                return x if kind == 'identity' else ZERO if kind == 'zero spline' else fval(k, x, c)
            compare_obs(m, rep, 'values at the nodes', f, ins, r, want, n, ng, cd, ts, t0)
        wrap(rep, 'values at the nodes', loc(f), ins, go)
    jobs = [('approximate', f) for f in aps] + [('construction from a function', f) for f in cts] + [('identity', f) for f in ids] + [('zero spline', f) for f in zs]
    parallel(rep, [(k, f, s) for k, f in jobs for s in sizes(rep) + [(3, 3, 1)]], one)


def check_assign(p, rep):
    """assignment: values, domain and interval lengths of the source; unsuitable sources are rejected and leave the target alone"""
    fs = [f for f in p.find(GL + '::operator=') if len(f['pt']) == 1 and not f.get('implicit')]

    def one(rep, t):
        f, (n, ng, cd) = t
        ts_ = p.ty(f['pt'][0])['s']
        isf = 'FunctionBase' in ts_
        rv = '&&' in ts_
        for diff in (None, 'codomain', 'nodes', 'intervals', 'numbers of nodes and intervals, exchanged,', 'self'):
            if isf and diff in ('nodes', 'intervals', 'self') or 'exch' in (diff or '') and (isf or n == ng or n not in NGL):
                continue
            ins = 'operator=(%s), %d intervals, %d nodes, %d components%s' % (ts_, n, ng, cd, ', different ' + diff if diff and diff != 'self' else ', itself' if diff else '')

            def go():
                m = M(p)
                tg = gll(m, 'A', n, ng, cd)
                n2, g2, c2 = n + (diff == 'intervals'), (5 - ng if diff == 'nodes' else ng), cd + (diff == 'codomain')
                if 'exch' in (diff or ''):
                    n2, g2 = ng, n
                rep.count('assignments')
                if isf:
                    t0, t1 = Fr(-2), Fr(19, 4)
                    src, k = fun_arg(m, 'F', t0, t1, c2)
                elif diff == 'self':
                    src = tg
                else:
                    t2 = [P(Fr(3 * i + 2, 4)) for i in range(n2)]
                    src = gll(m, 'B', n2, g2, c2, ts=t2, t0=Fr(-2))
                bad = diff not in (None, 'self') or (diff == 'self' and rv)
                own = lambda k, i, c: node('A', n, ng, cd, k, i, c)
                snaps = []
                m.on_throw = lambda m: snaps.append(m.snap())
                try:
                    r = m.call(f, [src], tg)
                except Dead:
                    throws(rep, m, f, ins, bad)
                    if bad:
                        m.on_throw = None
                        m.restore(snaps[0])
                        m.live = True
                        compare_obs(m, rep, 'a rejected assignment leaves the target alone', f, ins, tg, own, n, ng, cd, taus('A', n), Fr(1, 2))
                    return
                if bad and not (diff == 'self'):
                    return accepted(rep, m, f, ins)
                rep.used(m)
                if diff == 'self':
                    return compare_obs(m, rep, 'assignment', f, ins, tg, own, n, ng, cd, taus('A', n), Fr(1, 2))
                if isf:
                    tot = sum((x.const() for x in taus('A', n)), Fr(0))
                    ts = [P(x.const() * (t1 - t0) / tot) for x in taus('A', n)]
                    ps = pts_of(ts, t0, ng)
                    compare_obs(m, rep, 'assignment', f, ins, tg, lambda kk, i, c: fval(k, ps[kk][i], c), n, ng, cd, ts, t0)
                else:
                    compare_obs(m, rep, 'assignment', f, ins, tg, lambda k, i, c: node('B', n, ng, cd, k, i, c), n, ng, cd, t2, Fr(-2))
                    if not rv:
                        compare_obs(m, rep, 'operand unchanged', f, ins, src, lambda k, i, c: node('B', n, ng, cd, k, i, c), n, ng, cd, t2, Fr(-2))
                        # no sharing: a later change of the source is not seen
            wrap(rep, 'assignment', loc(f), ins, go)
    parallel(rep, [(f, s) for f in fs for s in sizes(rep)], one)


def check_copies(p, rep):
    """copy, move and clone of collocation splines"""
    fs = [f for f in p.find(GL + '::GaussLobattoLagrangeSpline') if len(f['pt']) == 1]

    def one(rep, t):
        f, (n, ng, cd) = t
        ts_ = p.ty(f['pt'][0])['s']
        ins = 'construction from %s, %d intervals, %d nodes, %d components' % (ts_, n, ng, cd)

        def go():
            m = M(p)
            s = gll(m, 'A', n, ng, cd)
            rep.count('copies')
            r = m.new(GL, f, [s])
            rep.used(m)
            w = lambda k, i, c: node('A', n, ng, cd, k, i, c)
            compare_obs(m, rep, 'a copy equals its source', f, ins, r, w, n, ng, cd, taus('A', n), Fr(1, 2))
            if '&&' not in ts_:
                compare_obs(m, rep, 'operand unchanged', f, ins, s, w, n, ng, cd, taus('A', n), Fr(1, 2))
        wrap(rep, 'a copy equals its source', loc(f), ins, go)
    parallel(rep, [(f, s) for f in fs for s in sizes(rep)], one)
