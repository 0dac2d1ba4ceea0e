"""The interpolation problem: equations solved, layout of the solution, derivative with respect to the interval lengths."""
from scen import *
from report import *
import values as V
import rules_basis as B
import rules_gs as G
from rules_col import throws, accepted
from rules_elem import wrap, meta_of
from absfun import pick
from fractions import Fraction as Fr

IN = 'gsplines::Interpolator'
SN = 'gsplines::functional_analysis::SobolevNorm'


def basis(m, dim, name='B'):
    k = fnkey(name)
    m.bconst = dict(getattr(m, 'bconst', {}))
    m.bconst[k] = dim
    return m.temp(Abs('basis', k)), k


def lens(n, lit=True):
    return [sym('L%d' % i, nonneg=True) for i in range(n)]


def wp(i, c):
    return Poly.at(atom('app', 'wp', P(i), P(c)))


def args_of(m, n, cd, rows=None, cols=None, ls=None):
    ls = ls if ls is not None else lens(n)
    tau = m.temp(Arr(P(len(ls)), ONE, lambda i, j: pick(i, ls)))
    w = m.temp(Arr(P(n + 1 if rows is None else rows), P(cd if cols is None else cols), lambda i, j: wp(i, j)))
    return tau, w


def ready(m):
    """the factorisation succeeds"""
    m.fact(eq(Poly.at(atom('solverinfo', sort='int')), ZERO))
    for i in range(14):
        m.fact(lt(ZERO, sym('L%d' % i, nonneg=True)))
    m.solves = []


def make(m, n, cd, dim):
    b, k = basis(m, dim)
    f = [f for f in m.prog.find(IN + '::Interpolator') if len(f['pt']) == 3][0]
    m.UNROLL = 24
    return m.new(IN, f, [P(cd), P(n), b]), k


def bev(k, s, tau, d, j):
    return Poly.at(atom('bev', k, P(s), P(tau), P(d), P(j)))


def btev(k, s, tau, d, j):
    return Poly.at(atom('btev', k, P(s), P(tau), P(d), P(j)))


def wanted(k, n, cd, dim, ls):
    """the equations that define the interpolant: {description: ({column: coefficient}, right hand side)}"""
    col = lambda i, c, j: i * cd * dim + c * dim + j
    out = {}
    for c in range(cd):
        for i in range(n):
            out['interval %d starts at waypoint %d, component %d' % (i, i, c)] = ({col(i, c, j): bev(k, -1, ls[i], 0, j) for j in range(dim)}, wp(i, c))
            out['interval %d ends at waypoint %d, component %d' % (i, i + 1, c)] = ({col(i, c, j): bev(k, 1, ls[i], 0, j) for j in range(dim)}, wp(i + 1, c))
        for i in range(n - 1):
            for d in range(1, dim - 1):
                r = {col(i, c, j): bev(k, 1, ls[i], d, j) for j in range(dim)}
                r.update({col(i + 1, c, j): -bev(k, -1, ls[i + 1], d, j) for j in range(dim)})
                out['derivative %d is continuous at waypoint %d, component %d' % (d, i + 1, c)] = (r, ZERO)
        for d in range(1, dim // 2):
            out['derivative %d is zero at the start, component %d' % (d, c)] = ({col(0, c, j): bev(k, -1, ls[0], d, j) for j in range(dim)}, ZERO)
            out['derivative %d is zero at the end, component %d' % (d, c)] = ({col(n - 1, c, j): bev(k, 1, ls[n - 1], d, j) for j in range(dim)}, ZERO)
    return out


def canon(row, rhs):
    """an equation up to a constant factor"""
    row = {c: v for c, v in row.items() if v.m}
    if not row:
        return ((), rhs)
    first = row[min(row)]
    f = first.m[T._lead(first)]
    if f == 0:
        f = Fr(1)
    inv = P(Fr(1) / f)
    return (tuple(sorted((c, v * inv) for c, v in row.items())), rhs * inv)


def system(A, b, size):
    rows = []
    for r in range(size):
        row = {}
        for c in range(size):
            v = CTX[0].simp(topoly(A.at(P(r), P(c))))
            if v.m:
                row[c] = v
        rows.append((row, CTX[0].simp(topoly(b.lin(P(r))))))
    return rows


def kinds(x):
    """atoms of a term that the rules know about only"""
    out = set()
    for mo in x.m:
        for a, _ in mo:
            out.add(a.kind)
    return out


KNOWN = {'bev', 'btev', 'app', 'solution', 'uninit'}


def split_conds(rows):
    for row, rhs in rows:
        for v in [rhs] + list(row.values()):
            if T.has_kind(v, 'ite'):
                cs = T.conds_of(v)
                if cs:
                    return cs[0]
    return None


def match_system(rep, rule, f, ins, rows, want, ctx=None, depth=0):
    """each wanted equation appears, and nothing else does, whichever way the undecided conditions go"""
    c = split_conds(rows) if depth < 5 else None
    if c is not None:
        for h in (c, f_not(c)):
            c2 = (ctx or CTX[0]).plus(h)
            if c2.infeasible():
                continue
            sub = lambda v: c2.simp(T.subst(v, {}, c2.lits))
            nr = [({q: w for q, w in ((q, sub(v)) for q, v in row.items()) if w.m}, sub(rhs)) for row, rhs in rows]
            match_system(rep, rule, f, ins, nr, want, c2, depth + 1)
        return
    if ctx is not None:
        if model.find_model(ctx.facts, None, 400)[0] is None:
            rep.add('unk', rule, loc(f), ins, 'case without a model: ' + ', '.join(show(x) for x in ctx.facts[-3:]))
            return
        ins += ', when ' + ', '.join(show(x) for x in ctx.facts[-depth:])
    have = {}
    opaque = False
    for i, (row, rhs) in enumerate(rows):
        ks = set().union(kinds(rhs), *[kinds(v) for v in row.values()])
        if ks - KNOWN:
            opaque = True
        key = canon(row, rhs)
        have.setdefault((tuple((c, v) for c, v in key[0]), key[1]), []).append(i)
    wk = {}
    for d, (row, rhs) in want.items():
        key = canon(row, rhs)
        wk[(tuple((c, v) for c, v in key[0]), key[1])] = d
    bad = 'unk' if opaque else 'bad'
    for key, d in wk.items():
        rep.count('equations')
        rep.add('ok' if key in have else bad, rule, loc(f), '%s: %s' % (ins, d), '' if key in have else 'no such equation among the %d rows of the system' % len(rows))
    for key, idx in have.items():
        if key not in wk or len(idx) > 1:
            rep.add(bad, rule, loc(f), '%s: row %d' % (ins, idx[0]), 'the equation %s = %s is not part of the problem' % (
                ' + '.join('%s*x%d' % (show(v), c) for c, v in key[0][:4]), show(key[1])) if key not in wk else 'repeated equation')


def sizes(rep):
    q = [(1, 1, 2), (1, 2, 4), (2, 1, 2), (2, 1, 4), (2, 2, 4), (3, 1, 4), (3, 2, 2), (4, 1, 2), (1, 1, 6), (2, 1, 6), (3, 2, 4), (4, 1, 4), (5, 1, 4), (6, 1, 4),
         (7, 1, 2), (9, 1, 2), (3, 3, 2), (2, 3, 4), (1, 1, 8), (2, 1, 8), (3, 1, 6)]
    return q if rep.tier == 'quick' else q + [(4, 2, 4), (2, 2, 6), (5, 2, 4), (3, 3, 4), (7, 1, 4), (8, 1, 4), (10, 1, 4), (12, 1, 2), (4, 1, 6), (5, 1, 6), (3, 1, 8), (1, 1, 10)]



def scaled(m, n, cd, dim, u):
    return [Poly.at(atom('solution', u, P(i), ZERO)) for i in range(n * cd * dim)]


def check_system(p, rep):
    """solve_interpolation: the equations, the right hand side, and reuse of the same object for another problem"""
    fs = p.find(IN + '::solve_interpolation')

    def one(rep, t):
        f, (n, cd, dim), again = t
        ins = '%d intervals, %d components, basis of dimension %d%s' % (n, cd, dim, ', second problem on the same object' if again else '')

        def go():
            m = M(p)
            ready(m)
            o, k = make(m, n, cd, dim)
            rep.count('systems')
            if again:
                w2 = m.temp(Arr(P(n + 1), P(cd), lambda i, j: Poly.at(atom('app', 'old', P(i), P(j)))))
                m.call(f, [m.temp(Arr(P(n), ONE, lambda i, j: pick(i, [P(7)] * n))), w2], o)
                m.solves = []
            tau, w = args_of(m, n, cd)
            r = m.call(f, [tau, w], o)
            rep.used(m)
            if len(m.solves) != 1:
                raise Unsupported('%d linear systems solved' % len(m.solves))
            u, A, b, wh, pc = m.solves[0]
            size = n * cd * dim
            rep.eq('interpolation problem', loc(f), ins + ': rows', A.rows, P(size), ctx=CTX[0])
            rep.eq('interpolation problem', loc(f), ins + ': columns', A.cols, P(size), ctx=CTX[0])
            match_system(rep, 'interpolation problem', f, ins, system(A, b, size), wanted(k, n, cd, dim, lens(n)))
            v = m.load(r) if isinstance(r, LV) else r
            for i in range(size):
                rep.eq('interpolation problem', loc(f), '%s: coefficient %d' % (ins, i), v.lin(P(i)), Poly.at(atom('solution', u, P(i), ZERO)), ctx=CTX[0])
        wrap(rep, 'interpolation problem', loc(f), ins, go)
    parallel(rep, [(f, s, a) for f in fs for s in sizes(rep) for a in (False, True)], one)


def check_result(p, rep):
    """interpolate(...): the spline on [0, sum of the lengths] made of the solution; unsuitable arguments are rejected"""
    fs = [(f, True) for f in p.find(IN + '::interpolate')] + [(f, False) for f in p.find('gsplines::interpolate') if len(f['pt']) == 3]
    gc = p.find(G.GB + '::get_coefficients')[0]
    gl = p.find(G.GB + '::get_interval_lengths')[0]

    def one(rep, t):
        (f, member), (n, cd, dim), diff = t
        ins = '%s, %d intervals, %d components, basis of dimension %d%s' % (f['n'] if not member else 'Interpolator::interpolate', n, cd, dim, ', ' + diff if diff else '')
        ls = lens(n)
        rows = cols = None
        if diff == 'one waypoint too few':
            rows = n
        if diff == 'one waypoint too many':
            rows = n + 2
        if diff == 'one component too many':
            cols = cd + 1
        if diff == 'one length too few':
            ls = ls[:-1] if n > 1 else ls
        if diff == 'one length too many':
            ls = ls + [P(1)]
        if diff == 'a negative length':
            ls = ls[:-1] + [P(-1)]
        if diff == 'a zero length':
            ls = [ZERO] + ls[1:]
        if not member and diff in ('one component too many',) or diff == 'one length too few' and n == 1 or (not member and 'waypoint' in (diff or '')):
            return

        def go():
            m = M(p)
            ready(m)
            m.UNROLL = 24
            rep.count('interpolations')
            tau, w = args_of(m, n, cd, rows, cols, ls)
            if diff is not None:
                m.solver_info = {'a singular system': 1, 'a failed factorisation': 3}.get(diff, 0)
            try:
                if member:
                    o, k = make(m, n, cd, dim)
                    r = m.call(f, [tau, w], o)
                else:
                    b, k = basis(m, dim)
                    r = m.call(f, [tau, w, b])
            except Dead:
                return throws(rep, m, f, ins, diff is not None, ('invalid_argument', 'logic_error', 'out_of_range', 'runtime_error'))
            if diff is not None:
                return accepted(rep, m, f, ins)
            rep.used(m)
            r = m.temp(r) if isinstance(r, Rec) else r
            c, a, b_ = meta_of(m, r)
            rep.eq('interpolating spline', loc(f), ins + ', codomain dimension', c, P(cd), ctx=CTX[0])
            rep.eq('interpolating spline', loc(f), ins + ', start of the domain', a, ZERO, ctx=CTX[0])
            rep.eq('interpolating spline', loc(f), ins + ', end of the domain', b_, sum(ls, ZERO), ctx=CTX[0])
            co, ta = m.load(m.call(gc, [], r)), m.load(m.call(gl, [], r))
            if len(m.solves) != 1:
                raise Unsupported('%d linear systems solved' % len(m.solves))
            u, A, bb, wh, pc = m.solves[0]
            size = n * cd * dim
            match_system(rep, 'interpolation problem', f, ins, system(A, bb, size), wanted(k, n, cd, dim, ls))
            for i in range(size):
                rep.eq('interpolating spline', loc(f), '%s: coefficient %d' % (ins, i), co.lin(P(i)), Poly.at(atom('solution', u, P(i), ZERO)), ctx=CTX[0])
            for i in range(n):
                rep.eq('interpolating spline', loc(f), '%s: length %d' % (ins, i), ta.lin(P(i)), ls[i], ctx=CTX[0])
            bs = m.load(r).d.get('basis_')
            rep.ok(isinstance(bs, Box) and isinstance(bs.v, Abs) and bs.v.key == k, 'interpolating spline', loc(f), ins + ': basis', 'a different basis')
        wrap(rep, 'interpolating spline', loc(f), ins, go)
    D = (None, 'one waypoint too few', 'one waypoint too many', 'one component too many', 'one length too few', 'one length too many', 'a negative length', 'a zero length', 'a singular system', 'a failed factorisation')
    parallel(rep, [(f, s, d) for f in fs for s in [(1, 1, 2), (2, 2, 4), (3, 1, 4)] for d in D], one)


def check_odd(p, rep):
    """a basis of odd dimension is rejected"""
    for f in [f for f in p.find(IN + '::Interpolator') if len(f['pt']) == 3]:
        for dim in (1, 2, 3, 4, 5, 6):
            ins = 'basis of dimension %d' % dim

            def go():
                m = M(p)
                b, k = basis(m, dim)
                rep.count('constructions')
                try:
                    m.new(IN, f, [ONE, P(2), b])
                except Dead:
                    return throws(rep, m, f, ins, dim % 2 == 1)
                if m.throws:
                    raise Unsupported('undecided throw')
                rep.add('ok' if dim % 2 == 0 else 'bad', 'unsuitable operands are rejected', loc(f), ins, 'accepted')
            wrap(rep, 'unsuitable operands are rejected', loc(f), ins, go)


def coeffs(size):
    return [Poly.at(atom('app', 'y', P(i))) for i in range(size)]


def dsys(rows, k, dim, ls, i):
    """derivative of each row with respect to length i: replace basis values at interval i by their length derivatives"""
    out = []
    for row, rhs in rows:
        d = {}
        for c, v in row.items():
            x = ZERO
            for mo, cf in v.m.items():
                if len(mo) != 1 or mo[0][1] != 1 or mo[0][0].kind != 'bev':
                    raise Unsupported('coefficient %s' % show(v))
                a = mo[0][0]
                if a.args[2] == ls[i]:
                    x = x + Poly.at(atom('btev', *a.args)) * P(cf)
            if x.m:
                d[c] = x
        out.append(d)
    return out


def check_coeff_deriv(p, rep):
    """get_coeff_derivative_wrt_tau(y, lengths, i): solves A x = -(dA/dlength_i) y"""
    fs = p.find(IN + '::get_coeff_derivative_wrt_tau')
    sv = p.find(IN + '::solve_interpolation')[0]

    def one(rep, t):
        f, (n, cd, dim), i, hist = t
        ins = '%d intervals, %d components, basis of dimension %d, length %d%s' % (n, cd, dim, i, ', ' + hist if hist else '')
        size = n * cd * dim

        def go():
            m = M(p)
            ready(m)
            o, k = make(m, n, cd, dim)
            rep.count('coefficient derivatives')
            y = m.temp(Arr(P(size), ONE, lambda i, j: Poly.at(atom('app', 'y', P(i)))))
            if hist == 'after other queries':
                w2 = m.temp(Arr(P(n + 1), P(cd), lambda i, j: Poly.at(atom('app', 'old', P(i), P(j)))))
                t7 = m.temp(Arr(P(n), ONE, lambda i, j: pick(i, [P(7 + q) for q in range(n)])))
                m.call(sv, [t7, w2], o)
                for q in range(n):
                    m.call(f, [y, t7, P(q)], o)
                m.solves = []
            ls = lens(n)
            if hist == 'a negative length':
                ls[-1] = P(-1)
            if hist == 'one length too many':
                ls = ls + [P(1)]
            tau = m.temp(Arr(P(len(ls)), ONE, lambda i, j: pick(i, ls)))
            bad = hist in ('a negative length', 'one length too many', 'a singular system') or i >= n
            if bad:
                m.solver_info = 1 if hist == 'a singular system' else 0
            try:
                r = m.call(f, [y, tau, P(i)], o)
            except Dead:
                return throws(rep, m, f, ins, bad, ('invalid_argument', 'logic_error', 'out_of_range', 'runtime_error'))
            if bad:
                return accepted(rep, m, f, ins)
            rep.used(m)
            if len(m.solves) != 1:
                raise Unsupported('%d linear systems solved' % len(m.solves))
            u, A, b, wh, pc = m.solves[0]
            rows = system(A, b, size)
            ref = [(row, ZERO) for row, _ in rows]
            want = {d: (row, ZERO) for d, (row, _) in wanted(k, n, cd, dim, ls).items()}
            match_system(rep, 'derivative of the interpolation problem', f, ins, ref, want)
            ys = coeffs(size)
            v = m.load(r) if isinstance(r, LV) else r
            # sign convention: x = -solution, or the right hand side carries the sign
            x0 = topoly(v.lin(ZERO))
            s0 = Poly.at(atom('solution', u, ZERO, ZERO))
            sg = -1 if x0 == -s0 else 1
            for q in range(size):
                rep.eq('derivative of the interpolation problem', loc(f), '%s: entry %d' % (ins, q), v.lin(P(q)), P(sg) * Poly.at(atom('solution', u, P(q), ZERO)), ctx=CTX[0])
            for q, d in enumerate(dsys(rows, k, dim, ls, i)):
                w = ZERO
                for c, x in d.items():
                    w = w + x * ys[c]
                B.eqr(rep, 'derivative of the interpolation problem', loc(f), '%s: right hand side %d' % (ins, q), rows[q][1], P(-sg) * w, CTX[0])
        wrap(rep, 'derivative of the interpolation problem', loc(f), ins, go)
    jobs = []
    for f in fs:
        for s in sizes(rep):
            for i in range(s[0]):
                for h in (None, 'after other queries'):
                    jobs.append((f, s, i, h))
        for s in ((1, 1, 2), (2, 1, 4)):
            for h in ('a negative length', 'one length too many', 'a singular system'):
                jobs.append((f, s, 0, h))
            jobs.append((f, s, s[0], None))
    parallel(rep, jobs, one)


def snorm(m, n, cd, dim, terms):
    b, k = basis(m, dim)
    f = [f for f in m.prog.find(SN + '::SobolevNorm') if len(f['pt']) == 3][0]
    m.UNROLL = 24
    w = m.temp(Arr(P(n + 1), P(cd), lambda i, j: wp(i, j)))
    ts = Seq([('one', Rec('std::pair', {'first': P(d), 'second': P(x)})) for d, x in terms])
    return m.new(SN, f, [w, b, ts]), k


def quadform(x, y, k, n, cd, dim, ls, terms, ap='gram', only=None):
    r = ZERO
    for i in range(n):
        if only is not None and i != only:
            continue
        for d, w in terms:
            for c in range(cd):
                o = i * cd * dim + c * dim
                for a in range(dim):
                    for b in range(dim):
                        r = r + P(w) * x[o + a] * Poly.at(atom(ap, k, ls[i], P(d), P(a), P(b))) * y[o + b]
    return r


def check_sobolev(p, rep):
    """SobolevNorm: value and gradient with respect to the interval lengths"""
    fv = p.find(SN + '::operator()')
    fg = p.find(SN + '::deriv_wrt_interval_len')

    def one(rep, t):
        kind, f, (n, cd, dim), ds, hist = t
        terms = [(d, sym('w%d' % i)) for i, d in enumerate(ds)]
        ins = '%d intervals, %d components, basis of dimension %d, orders %s%s' % (n, cd, dim, ds, ', ' + hist if hist else '')
        size = n * cd * dim

        def go():
            m = M(p)
            ready(m)
            rep.count('seminorms')
            o, k = snorm(m, n, cd, dim, terms)
            ls = lens(n)
            if hist:
                t7 = m.temp(Arr(P(n), ONE, lambda i, j: pick(i, [P(7 + q) for q in range(n)])))
                m.call(fv[0], [t7], o)
                buf = m.temp(Arr(P(n), ONE, lambda i, j: Poly.at(atom('uninit', 'g', P(i)))))
                m.call(fg[0], [t7, buf], o)
                m.solves = []
            tau = m.temp(Arr(P(n), ONE, lambda i, j: pick(i, ls)))
            if kind == 'value':
                r = m.call(f, [tau], o)
                rep.used(m)
                if len(m.solves) != 1:
                    raise Unsupported('%d linear systems solved' % len(m.solves))
                u, A, b, wh, pc = m.solves[0]
                match_system(rep, 'interpolation problem', f, ins, system(A, b, size), wanted(k, n, cd, dim, ls))
                y = [Poly.at(atom('solution', u, P(i), ZERO)) for i in range(size)]
                B.eqr(rep, 'seminorm', loc(f), ins, topoly(m.load(r) if isinstance(r, LV) else r), quadform(y, y, k, n, cd, dim, ls, terms), CTX[0])
            else:
                buf = m.temp(Arr(P(n), ONE, lambda i, j: Poly.at(atom('app', 'old', P(i)))))
                m.call(f, [tau, buf], o)
                rep.used(m)
                if len(m.solves) != n + 1:
                    raise Unsupported('%d linear systems solved' % len(m.solves))
                u0, A0, b0, _, _ = m.solves[0]
                rows0 = system(A0, b0, size)
                match_system(rep, 'interpolation problem', f, ins, rows0, wanted(k, n, cd, dim, ls))
                y = [Poly.at(atom('solution', u0, P(i), ZERO)) for i in range(size)]
                g = m.load(buf)
                used = {}
                for i in range(n):
                    # which solve belongs to this length: right hand side = +- dA_i y
                    hit = None
                    for s in m.solves[1:]:
                        rows = system(s[1], s[2], size)
                        ref = [(row, ZERO) for row, _ in rows]
                        d = dsys(rows, k, dim, ls, i)
                        for sg in (1, -1):
                            if all(B.rat_equal(rows[q][1], P(sg) * sum((x * y[c] for c, x in d[q].items()), ZERO)) for q in range(size)):
                                hit = (s[0], -sg)
                        if hit:
                            break
                    if hit is None:
                        rep.add('bad', 'gradient of the seminorm', loc(f), '%s: length %d' % (ins, i), 'no linear system solved for the derivative of the coefficients')
                        continue
                    dy = [P(hit[1]) * Poly.at(atom('solution', hit[0], P(q), ZERO)) for q in range(size)]
                    w = quadform(y, y, k, n, cd, dim, ls, terms, 'gramt', i) + P(2) * quadform(y, dy, k, n, cd, dim, ls, terms)
                    # the Gram matrices are symmetric
                    w = symmetric(w)
                    B.eqr(rep, 'gradient of the seminorm', loc(f), '%s: length %d' % (ins, i), symmetric(topoly(g.lin(P(i)))), w, CTX[0])
        wrap(rep, 'seminorm' if kind == 'value' else 'gradient of the seminorm', loc(f), ins, go)
    ss = [(1, 1, 2), (2, 1, 2), (2, 2, 2), (3, 1, 2), (5, 1, 2), (6, 2, 2), (1, 1, 4), (2, 1, 4), (3, 2, 4), (1, 1, 6)] if rep.tier == 'quick' else [(1, 1, 2), (2, 1, 2), (2, 2, 2), (3, 1, 2), (3, 2, 2), (4, 1, 2), (1, 1, 4), (2, 1, 4), (1, 2, 4), (2, 2, 4), (3, 1, 4)]
    parallel(rep, [(kd, f, s, ds, h) for kd, fs in (('value', fv), ('gradient', fg)) for f in fs for s in ss
                   for ds in ([1], [0, 2], [3, 1, 2], [1, 1], [4, 3, 2, 1, 0]) for h in (None, 'after other queries') if not (h and (len(ds) != 2 or s[2] > 2))], one)


def symmetric(x):
    """gram(i, j) = gram(j, i)"""
    sub = {}
    for a in T.atoms_of(x, lambda a: a.kind in ('gram', 'gramt')):
        if a.args[3].const() > a.args[4].const():
            sub[a] = Poly.at(atom(a.kind, a.args[0], a.args[1], a.args[2], a.args[4], a.args[3]))
    return T.subst(x, sub) if sub else x
