"""Expressions built from the elementary functions themselves: values and derivatives.
Complements the rules on arbitrary operands, which say nothing about code that looks at the class of a part."""
from scen import *
from report import *
import values as V
import rules_alg as A
import rules_basis as B
from rules_elem import wrap, un, ctor_of, as_obj, meta_of
from absfun import pick
from fractions import Fraction as Fr

D0, D1, D2 = Fr(1, 4), Fr(5, 4), Fr(3)


class M(M):
    UNROLL = 24


def C(nm, i):
    return Poly.at(atom('app', nm, P(i)))


def leaf(m, kind, nm, dom):
    """(object, value, codomain dimension)"""
    p = m.prog
    d = pair(*dom)
    if kind in ('Sin', 'Cos', 'Exponential', 'Identity'):
        c = next(iter(ctor_of(p, kind, 1)))
        lv = m.new(NS + kind, c, [d])
        f = {'Sin': lambda t, j: T.fun('sin', t), 'Cos': lambda t, j: T.fun('cos', t), 'Exponential': lambda t, j: T.fun('exp', t), 'Identity': lambda t, j: t}[kind]
        return lv, f, 1
    if kind == 'DomainLinearDilation':
        c = next(iter(ctor_of(p, kind, 2)))
        return m.new(NS + kind, c, [d, sym('lam' + nm)]), lambda t, j: sym('lam' + nm) * t, 1
    if kind == 'ConstFunction':
        c = next(iter(ctor_of(p, kind, 3)))
        return m.new(NS + kind, c, [d, ONE, sym('c' + nm)]), lambda t, j: sym('c' + nm), 1
    if kind == 'ZeroConstant':
        c = next(iter(ctor_of(p, 'ConstFunction', 3)))
        return m.new(NS + 'ConstFunction', c, [d, ONE, ZERO]), lambda t, j: ZERO, 1
    if kind == 'VectorConstant':
        c = next(iter(ctor_of(p, 'ConstFunction', 2)))
        return m.new(NS + 'ConstFunction', c, [d, m.temp(vec('C' + nm, P(2)))]), lambda t, j: C('C' + nm, j), 2
    if kind == 'CanonicPolynomial':
        c = next(iter(ctor_of(p, kind, 2, lambda ts: '&&' not in ts[1])))
        return m.new(NS + kind, c, [d, m.temp(vec('C' + nm, P(3)))]), lambda t, j: C('C' + nm, 0) + C('C' + nm, 1) * t + C('C' + nm, 2) * t * t, 1
    if kind == 'Expression':
        lv = m.temp(Abs('fun', fnkey('X' + nm)))
        m.fconst = dict(getattr(m, 'fconst', {}))
        for k in [fnkey('X' + nm)] + [der(fnkey('X' + nm), P(q)) for q in range(1, 4)]:
            m.fconst[k] = (P(dom[0]), P(dom[1]), ONE)
        return lv, lambda t, j: V.val(fnkey('X' + nm), t, ZERO), 1
    raise Unsupported(kind)


LEAVES = ['ConstFunction', 'ZeroConstant', 'Identity', 'DomainLinearDilation', 'Sin', 'Cos', 'Exponential', 'CanonicPolynomial', 'VectorConstant', 'Expression']
OPS = ('sum', 'diff', 'mul', 'comp', 'concat')


def express(m, lv):
    f = [f for f in m.prog.find(NS + 'FunctionBase::to_expression') if f.get('rq') != '&&'][0]
    r = m.call(f, [], lv)
    return m.temp(r) if isinstance(r, Rec) else r


def combine(op, a, b):
    """value of the combination; None when the library must reject it"""
    (fa, ca), (fb, cb) = a, b
    if op in ('sum', 'diff'):
        if ca != cb:
            return None
        s = 1 if op == 'sum' else -1
        return (lambda t, j: fa(t, j) + P(s) * fb(t, j)), ca
    if op == 'mul':
        if ca != 1 and cb != 1:
            return None
        return (lambda t, j: fa(t, j if ca > 1 else ZERO) * fb(t, j if cb > 1 else ZERO)), max(ca, cb)
    if op == 'comp':
        if cb != 1:
            return None
        return (lambda t, j: fa(fb(t, ZERO), j)), ca
    raise Unsupported(op)


def evaluate(m, lv, ts):
    o = m.load(lv)
    vi = virt(m.prog, o.cls, 'value_impl') if isinstance(o, Rec) else None
    pts = m.temp(Arr(P(len(ts)), ONE, lambda i, j: pick(i, ts)))
    if vi is None:
        k = o.key
        return Arr(P(len(ts)), ONE, lambda i, j: V.val(k, pick(i, ts), j))
    cd = m.load(lv.sub(('f', 'codom_dim_')))
    out = m.temp(Arr(P(len(ts)), cd, lambda i, j: Poly.at(atom('uninit', 'result', i, j))))
    m.call(vi, [pts, out], lv)
    return m.load(out)


def derive(m, lv, d):
    f = m.prog.find(NS + 'FunctionBase::derivate')[0]
    r = m.call(f, [P(d)], lv)
    return m.temp(r) if isinstance(r, Rec) else r


def build(m, op, f, a, b):
    """a op b through the overload f; returns the result object"""
    r = m.call(f, [b], a)
    if f['n'].endswith('=') or f['n'].endswith('_inplace'):
        return a
    return m.temp(r) if isinstance(r, Rec) else r


def judge_tree(rep, p, f, ins, m, lv, val, cd, ts, degs, rule):
    v = None
    for d in degs:
        o = lv if d == 0 else derive(m, lv, d)
        got = evaluate(m, o, ts)
        rep.count('expressions')
        c, a, b = meta_of(m, o)
        rep.eq(rule, loc(f), '%s, derivative %d, codomain dimension' % (ins, d), c, P(cd), ctx=CTX[0])
        for i, t in enumerate(ts):
            for j in range(cd):
                w = val(t, P(j)) if d == 0 else dterm(val, t, P(j), d)
                g = topoly(got.at(P(i), P(j)))
                rep.eq(rule if d == 0 else rule + ', derivative', loc(f), '%s, derivative %d, point %d, component %d' % (ins, d, i, j), g, w, ctx=CTX[0])


def dterm(val, t, j, d):
    x = val(t, j)
    ta = next(iter(t.m))[0][0]
    for _ in range(d):
        x = dfun(x, ta)
    return x


def dfun(x, v):
    """derivative of a term, arbitrary functions included (chain rule on val)"""
    out = ZERO
    for mo, c in P(x).m.items():
        for k, (a, e) in enumerate(mo):
            rest = P(c)
            for q, (a2, e2) in enumerate(mo):
                if q != k:
                    rest = rest * Poly({((a2, e2),): Fr(1)})
            if isinstance(e, Poly):
                raise Unsupported('symbolic exponent')
            inner = datom(a, v)
            if not inner.m:
                continue
            out = out + rest * P(e) * (Poly({((a, e - 1),): Fr(1)}) if e != 1 else ONE) * inner
    return out


def datom(a, v):
    if a is v or a == v:
        return ONE
    if a.kind == 'sym' or (a.kind == 'app' and all(P(x).is_const() for x in a.args[1:])):
        return ZERO
    if a.kind == 'val':
        k, t, j = a.args
        k2 = der(k, ONE)
        return V.val(k2, t, j) * dfun(t, v)
    if a.kind in ('sin', 'cos', 'exp', 'P'):
        i = dfun(a.args[0], v)
        x = a.args[0]
        return i * {'sin': lambda: T.fun('cos', x), 'cos': lambda: -T.fun('sin', x), 'exp': lambda: T.fun('exp', x), 'P': lambda: ONE}[a.kind]()
    raise Unsupported('derivative of %s' % a.kind)


def overloads(p, rep):
    """one list per operation; every overload in the thorough tier"""
    out = {}
    for cls in (FE,):
        for f, op, ip in A.op_fns(p, cls):
            out.setdefault(op, []).append(f)
    return out


def check_pairs(p, rep, degs=(0, 1, 2)):
    ov = overloads(p, rep)

    def one(rep, t):
        op, f, ka, kb = t
        ins = '%s(%s, %s) through %s %s' % (op, ka, kb, f['n'], (f.get('rq') or '') + ('&&' if A.rr(p, f) else ''))

        def go():
            m = M(p)
            a, fa, ca = leaf(m, ka, 'A', (D0, D1))
            b, fb, cb = leaf(m, kb, 'B', (D1, D2) if op == 'concat' else (D0, D1))
            if op == 'concat' and ca != cb:
                return
            w = combine(op, (fa, ca), (fb, cb)) if op != 'concat' else True
            if w is None or (op == 'mul' and f['n'].endswith('=') and cb > ca):
                return
            ts = [sym('t'), sym('u')]
            ea, eb = express(m, a), express(m, b)
            r = build(m, op, f, ea, eb)
            if op == 'concat':
                m.fact(lt(P(D0), ts[0])), m.fact(lt(ts[0], P(D1)))
                m.fact(lt(P(D1), ts[1])), m.fact(lt(ts[1], P(D2)))
                cd = ca
                for i, (t, fx) in enumerate(((ts[0], fa), (ts[1], fb))):
                    judge_tree(rep, p, f, ins + ', piece %d' % i, m, r, fx, cd, [t], degs, 'expression of elementary functions')
            else:
                judge_tree(rep, p, f, ins, m, r, w[0], w[1], ts, degs, 'expression of elementary functions')
            rep.used(m)
        wrap(rep, 'expression of elementary functions', loc(f), ins, go)
    jobs = []
    for op, fs in ov.items():
        for ka in LEAVES:
            for kb in LEAVES:
                for f in fs:
                    jobs.append((op, f, ka, kb))
    parallel(rep, jobs, one)


def negated(m, lv, rv=False):
    f = [f for f in m.prog.find(FE + '::operator-') if not f['pt'] and ((f.get('rq') == '&&') == rv)][0]
    r = m.call(f, [], lv)
    return m.temp(r) if isinstance(r, Rec) else r


SMALL = ['ConstFunction', 'Identity', 'Sin', 'CanonicPolynomial', 'VectorConstant', 'Expression']


def check_nested(p, rep, degs=(0, 1)):
    """(a op b) op c, a op (b op c), -(a op b) op c"""
    ov = overloads(p, rep)

    def one(rep, t):
        op1, op2, shape, ks, k = t
        f1, f2 = ov[op1][k % len(ov[op1])], ov[op2][(k // 2) % len(ov[op2])]
        ins = {'left': '(%s %s %s) %s %s', 'negated': '-(%s %s %s) %s %s', 'right': '%s %s (%s %s %s)'}[shape] % (
            (ks[0], op1, ks[1], op2, ks[2]) if shape != 'right' else (ks[0], op2, ks[1], op1, ks[2]))

        def go():
            m = M(p)
            L = [leaf(m, x, 'ABC'[i], (D0, D1)) for i, x in enumerate(ks)]
            fv = [(f, c) for _, f, c in L]
            x, y = (0, 1) if shape != 'right' else (1, 2)
            w = combine(op1, fv[x], fv[y])
            if w is None or (op1 == 'mul' and f1['n'].endswith('=') and fv[y][1] > fv[x][1]):
                return
            if shape == 'negated':
                g = w
                w = (lambda t, j: -g[0](t, j)), g[1]
            w2 = combine(op2, w, fv[2]) if shape != 'right' else combine(op2, fv[0], w)
            ca, cb = (w[1], fv[2][1]) if shape != 'right' else (fv[0][1], w[1])
            if w2 is None or (op2 == 'mul' and f2['n'].endswith('=') and cb > ca):
                return
            e = [express(m, o) for o, _, _ in L]
            r = build(m, op1, f1, e[x], e[y])
            if shape == 'negated':
                r = negated(m, r, k % 2 == 1)
            r = build(m, op2, f2, r, e[2]) if shape != 'right' else build(m, op2, f2, e[0], r)
            judge_tree(rep, p, f2, ins, m, r, w2[0], w2[1], [sym('t'), sym('u')], degs, 'nested expression')
            rep.used(m)
        wrap(rep, 'nested expression', loc(f2), ins, go)
    jobs = []
    k = 0
    ops = [o for o in OPS if o != 'concat' and o in ov]
    for o1 in ops:
        for o2 in ops:
            for shape in ('left', 'right', 'negated'):
                for a in SMALL:
                    for b in SMALL:
                        for c in SMALL:
                            k += 1
                            if rep.tier == 'quick' and k % 4:
                                continue
                            jobs.append((o1, o2, shape, (a, b, c), k // 4))
    parallel(rep, [jobs[i:i + 8] for i in range(0, len(jobs), 8)], lambda rep, b: [one(rep, t) for t in b])


def several(rep, p, f, ins, m, lv, pts, degs, cd=1):
    for d in degs:
        o = lv if d == 0 else derive(m, lv, d)
        got = evaluate(m, o, [t for t, _ in pts])
        for i, (t, val) in enumerate(pts):
            for j in range(cd):
                w = val(t, P(j)) if d == 0 else dterm(val, t, P(j), d)
                rep.eq('several points', loc(f), '%s, derivative %d, point %d, component %d' % (ins, d, i, j), topoly(got.at(P(i), P(j))), w, ctx=CTX[0])


def check_chains(p, rep, degs=(0, 1)):
    """long sums, products, compositions and concatenations"""
    ov = overloads(p, rep)
    seq = ['Expression', 'Sin', 'CanonicPolynomial', 'Identity', 'ConstFunction', 'Exponential', 'Cos', 'DomainLinearDilation', 'Sin', 'Identity']

    def one(rep, t):
        op, f, n, off = t
        ks = [seq[(i + off) % len(seq)] for i in range(n)]
        ins = '%s of %d functions starting with %s through %s %s' % (op, n, ks[0], f['n'], (f.get('rq') or '') + ('&&' if A.rr(p, f) else ''))

        def go():
            m = M(p)
            w = None
            r = None
            h = Fr(1, 2)
            vals = []
            for i, x in enumerate(ks):
                dom = (D0 + i * h, D0 + (i + 1) * h) if op == 'concat' else (D0, D1)
                o, fx, c = leaf(m, x, '%d_' % i, dom)
                vals.append(fx)
                e = express(m, o)
                if r is None:
                    r, w = e, (fx, c)
                else:
                    r = build(m, op, f, r, e)
                    w = combine(op, w, (fx, c)) if op != 'concat' else w
            if op == 'concat':
                for i in range(n):
                    m2 = m
                    t = sym('t%d' % i)
                    m.fact(lt(P(D0 + i * h), t)), m.fact(lt(t, P(D0 + (i + 1) * h)))
                    judge_tree(rep, p, f, ins + ', piece %d' % i, m, r, vals[i], 1, [t], degs, 'long expression')
                if n <= 5:
                    # several points at once, in rising, falling and mixed order, with breakpoints
                    for order in (range(n), range(n)[::-1], [n - 1, 0, n // 2, 0]):
                        several(rep, p, f, '%s, pieces %s in one call' % (ins, list(order)), m, r,
                                [(sym('t%d' % i), vals[i]) for i in order], degs)
                    for order in ([n - 1, 1, 2, 0], [0, 2, 1, n - 1]):
                        several(rep, p, f, '%s, left ends of the pieces %s in one call' % (ins, order), m, r,
                                [(P(D0 + i * h), vals[i]) for i in order], [d for d in degs if d == 0])
            else:
                judge_tree(rep, p, f, ins, m, r, w[0], w[1], [sym('t')], degs, 'long expression')
                if n <= 3:
                    several(rep, p, f, ins + ', three points in one call', m, r, [(sym('t'), w[0]), (sym('u'), w[0]), (sym('t'), w[0])], degs, w[1])
            rep.used(m)
        wrap(rep, 'long expression', loc(f), ins, go)
    ns = (3, 5, 7) if rep.tier == 'quick' else (3, 4, 5, 6, 7, 8, 10)
    parallel(rep, [(op, f, n, off) for op, fs in ov.items() for f in fs for n in ns for off in ((0, 3, 7) if rep.tier != 'quick' else (0, 3)) if not (op == 'comp' and n > 5)], one)


def check_values(p, rep):
    check_pairs(p, rep, (0,))
    check_nested(p, rep, (0,))
    check_chains(p, rep, (0,))


def check_derivs(p, rep):
    check_pairs(p, rep, (1, 2, 3) if rep.tier != 'quick' else (1, 2))
    check_nested(p, rep, (1,))
    check_chains(p, rep, (1,))
