"""Elementary functions: values, derivatives of every order, dot product,
scalar multiples, generic entry points."""
import os
import report
from scen import *
from report import *
import model
import rules_alg as A
import rules_deriv as RD
from rules_alg import I, J, T_

DOM = (sym('a'), sym('b'))


class M(M):
    UNROLL = 32


def un(name, x):
    return T.unary(name, x) if hasattr(T, 'unary') else Poly.at(atom(name, x))


def ctor_of(p, cls, npar, pred=None):
    for f in p.find(NS + cls + '::' + cls):
        if f.get('copy') or f.get('move') or len(f['params']) != npar:
            continue
        if pred is None or pred([p.ty(x)['s'] for x in f['pt']]):
            yield f


def wrap(rep, rule, where, ins, fn):
    try:
        return fn()
    except interp.NullDeref as ex:
        rep.add('bad', rule, where, ins, str(ex))
    except Dead:
        rep.add('bad', rule, where, ins, 'every path throws')
    except (Unsupported, RecursionError) as ex:
        rep.add('unk', rule, where, ins, str(ex))
    except report.Timeout:
        raise
    except Exception as ex:  # a construct the engine does not model
        rep.add('unk', rule, where, ins, 'engine: %s: %s' % (type(ex).__name__, ex))
        if os.environ.get('SA_DEBUG'):
            raise
    return None


def meta_of(m, lv):
    o = m.load(lv)
    if isinstance(o, Abs):
        return codom(o.key), dom0(o.key), dom1(o.key)
    return o.d['codom_dim_'], o.d['domain_'].d['first'], o.d['domain_'].d['second']


def judge(rep, m, f, ins, lv, want, cd, ncol=None, dom=DOM):
    """value, codomain and domain of the function object at lv"""
    o = m.load(lv)
    if isinstance(o, Sel):
        # the class of the result depends on run-time values: judge each case
        def side(x):
            judge(rep, m, f, ins, x if isinstance(x, LV) else x.lv if isinstance(x, Ptr) else m.temp(x), want, cd, ncol, dom)
            return Opq('judged')
        m.branch(o.c, lambda: side(o.a), lambda: side(o.b))
        return
    rule = 'value'
    c, a, b = meta_of(m, lv)
    rep.eq('codomain dimension', loc(f), ins, c, cd, ctx=CTX[0])
    rep.eq('domain', loc(f), ins, a, dom[0], ctx=CTX[0])
    rep.eq('domain', loc(f), ins, b, dom[1], ctx=CTX[0])
    v = value_of(m, lv)
    m.fact(lt(I, v.rows))
    m.fact(lt(J, P(cd)))
    got = v.at(I, J if ncol is None else ncol)
    rep.eq(rule, loc(f), ins, got, want, ctx=CTX[0])
    rep.used(m)


def degrees(rep):
    return range(0, 9) if rep.tier == 'quick' else range(0, 13)


def run_class(p, rep, cls, ctor, mk, spec, cd, ins0, degs):
    """construct, evaluate, differentiate"""
    for d in degs:
        m = M(p)
        m.fact(le(DOM[0], DOM[1]))
        ins = '%s, derivative of degree %d' % (ins0, d)
        f = virt(p, NS + cls, 'deriv_impl')

        def go():
            e = m.new(NS + cls, ctor, mk(m))
            r = m.call(f, [P(d)], e)
            lv = r.lv if isinstance(r, Ptr) else m.temp(r)
            rep.count('function scenarios')
            judge(rep, m, f, ins, lv, spec(T_(I), J, d), cd)
        wrap(rep, 'value', loc(f), ins, go)
    m = M(p)
    m.fact(le(DOM[0], DOM[1]))

    def go():
        e = m.new(NS + cls, ctor, mk(m))
        rep.count('function scenarios')
        judge(rep, m, ctor, ins0, e, spec(T_(I), J, 0), cd)
    wrap(rep, 'value', loc(ctor), ins0, go)


def check_elementary(p, rep):
    sin, cos, exp = (lambda t: un('sin', t)), (lambda t: un('cos', t)), (lambda t: un('exp', t))
    tasks = []
    cyc_s = [sin, cos, lambda t: -sin(t), lambda t: -cos(t)]
    degs = degrees(rep)
    dom = lambda m: [pair(*DOM)]
    lam = sym('lam')

    def dil(t, j, d):
        return lam * t if d == 0 else lam if d == 1 else ZERO

    def ident(t, j, d):
        return t if d == 0 else ONE if d == 1 else ZERO
    jobs = []
    for c in ctor_of(p, 'Sin', 1):
        jobs.append(('Sin', c, dom, lambda t, j, d: cyc_s[d % 4](t), ONE, 'sine'))
    for c in ctor_of(p, 'Cos', 1):
        jobs.append(('Cos', c, dom, lambda t, j, d: cyc_s[(d + 1) % 4](t), ONE, 'cosine'))
    for c in ctor_of(p, 'Exponential', 1):
        jobs.append(('Exponential', c, dom, lambda t, j, d: exp(t), ONE, 'exponential'))
    for c in ctor_of(p, 'DomainLinearDilation', 2):
        jobs.append(('DomainLinearDilation', c, lambda m: [pair(*DOM), lam], dil, ONE, 'dilation'))
    for c in ctor_of(p, 'Identity', 1):
        jobs.append(('Identity', c, dom, ident, ONE, 'identity'))
    n = sym('n', sort='int', nonneg=True)
    cv = sym('c')
    for c in ctor_of(p, 'ConstFunction', 3):
        jobs.append(('ConstFunction', c, lambda m: [pair(*DOM), n, cv], lambda t, j, d: cv if d == 0 else ZERO, n, 'constant from a number'))
    for c in ctor_of(p, 'ConstFunction', 2):
        jobs.append(('ConstFunction', c, lambda m: [pair(*DOM), m.temp(vec('C', n))],
                     lambda t, j, d: Poly.at(atom('app', 'C', j)) if d == 0 else ZERO, n, 'constant from a vector'))
    for c in ctor_of(p, 'CanonicPolynomial', 2):
        q = 'rvalue' if p.ty(c['params'][1]['t']).get('rref') else 'lvalue'
        for sz in list(range(1, 8)) + ([10, 13] if rep.tier == 'quick' else list(range(8, 17)) + [24]):
            def pol(t, j, d, sz=sz):
                r = ZERO
                for i in range(d, sz):
                    w = 1
                    for x in range(i, i - d, -1):
                        w *= x
                    mon = ONE
                    for _ in range(i - d):
                        mon = mon * t
                    r = r + P(w) * Poly.at(atom('app', 'C', P(i))) * mon
                return r
            jobs.append(('CanonicPolynomial', c, lambda m, sz=sz: [pair(*DOM), m.temp(vec('C', P(sz)))], pol, ONE,
                         'polynomial with %d coefficients (%s)' % (sz, q)))
    rep.count('elementary function classes', len({j[0] for j in jobs}))

    def work(rep, k):
        cls, c, mk, spec, cd, ins = jobs[k]
        run_class(p, rep, cls, c, mk, spec, cd, ins, degs)
    parallel(rep, list(range(len(jobs))), work)


def dot_spec(ka, kb, d):
    """Leibniz"""
    from math import comb
    t = T_(I)
    b = fresh_bv('s')
    r = ZERO
    for k in range(d + 1):
        r = r + P(comb(d, k)) * V.val(der(ka, P(k)), t, P(b)) * V.val(der(kb, P(d - k)), t, P(b))
    return psum(b, codom(ka), r)


def check_dot(p, rep):
    tasks = []
    for f in sorted(p.fns.values(), key=lambda f: f['l']):
        if f.get('cls') == NS + 'FunctionBase' and f['n'] == 'dot':
            tasks.append((f, False))
        if f.get('cls') == NS + 'DotProduct' and f.get('ctor') and len(f['params']) == 2:
            tasks.append((f, True))
    rep.count('dot product entry points', len(tasks))

    def work(rep, task):
        f, is_ctor = task
        q = ','.join('&&' if p.ty(x['t']).get('rref') else 'const&' for x in f['params'])
        for d in [None, 0, 1, 2, 3, 4, 5] + ([6, 7] if rep.tier != 'quick' else []):
            m = M(p)
            ka, kb = fnkey('A'), fnkey('B')
            for x in (le(dom0(ka), dom1(ka)), le(ONE, codom(ka)), eq(codom(ka), codom(kb)), eq(dom0(ka), dom0(kb)), eq(dom1(ka), dom1(kb))):
                m.fact(x)
            ins = 'dot(%s)%s%s' % (q, ' on rvalue' if f.get('rq') == '&&' else '', '' if d is None else ', derivative of degree %d' % d)

            def go():
                a, b = m.temp(afun('A'), 'o'), m.temp(afun('B'), 'o')
                if is_ctor:
                    e = m.new(NS + 'DotProduct', f, [a, b])
                else:
                    r = m.call(f, [b], a)
                    e = r if isinstance(r, LV) else m.temp(r)
                if d is not None:
                    g = virt(p, NS + 'DotProduct', 'deriv_impl')
                    r = m.call(g, [P(d)], e)
                    e = r.lv if isinstance(r, Ptr) else m.temp(r)
                rep.count('function scenarios')
                judge(rep, m, f, ins, e, dot_spec(ka, kb, d or 0), ONE, ncol=ZERO, dom=(dom0(ka), dom1(ka)))
            wrap(rep, 'value', loc(f), ins, go)
    parallel(rep, tasks, work)


def check_scalar_multiple(p, rep):
    """number * function"""
    for f in sorted(p.fns.values(), key=lambda f: f['l']):
        if f['q'] == NS + 'operator*' and len(f['params']) == 2 and p.ty(f['pt'][0])['s'] == 'double':
            for ty, vc, lam in [(ty, vc, lam) for ty in TYPES for vc in (True, False) for lam in (sym('lam'), P(-1), ZERO, ONE, P(2))]:
                m = M(p)
                ins = 'number * %s %s (%s)' % ('vector' if vc else 'scalar', ty, '&&' if p.ty(f['params'][1]['t']).get('rref') else 'const&')
                if lam.is_const():
                    ins = ins.replace('number', str(lam.const()))

                def go():
                    e = expr(m, 'A', ty)
                    A.invariants(m, 'A', ty)
                    m.fact(lt(ONE, codom(fnkey('A'))) if vc else eq(codom(fnkey('A')), ONE))
                    r = m.call(f, [lam, e])
                    lv = r if isinstance(r, LV) else m.temp(r)
                    k = fnkey('A')
                    j = J if vc else ZERO
                    judge(rep, m, f, ins, lv, lam * A.spec('A', ty)(T_(I), j), codom(k), ncol=j, dom=(dom0(k), dom1(k)))
                wrap(rep, 'value', loc(f), ins, go)


def check_entry(p, rep):
    """generic entry points: every class derived from FunctionBase"""
    FB = NS + 'FunctionBase'
    k = fnkey('A')
    for f in sorted(p.fns.values(), key=lambda f: (f['file'], f['l'])):
        if f.get('cls') != FB:
            continue
        nm, np = f['n'], len(f['params'])
        m = M(p)
        m.fact(le(dom0(k), dom1(k)))
        m.fact(le(ONE, codom(k)))
        e = m.temp(afun('A'), 'o')
        ins = '%s/%d%s' % (nm, np, ' on rvalue' if f.get('rq') == '&&' else '')
        dom = (dom0(k), dom1(k))
        t = T_(I)

        def go():
            if nm in ('to_expression', 'clone', 'move_clone') and np == 0:
                r = m.call(f, [], e)
                lv = as_obj(m, r)
                judge(rep, m, f, ins, lv, V.val(k, t, J), codom(k), dom=dom)
            elif nm in ('deriv', 'derivate') and np == 1:
                for d in range(4):
                    r = m.call(f, [P(d)], e)
                    judge(rep, m, f, ins + ' of degree %d' % d, as_obj(m, r), V.val(der(k, P(d)), t, J), codom(k), dom=dom)
            elif nm in ('operator()', 'value') and np == 1:
                n = sym('N', sort='int', nonneg=True)
                r = m.load(m.call(f, [m.temp(vec('T', n))], e))
                m.fact(lt(I, n))
                rep.eq('value', loc(f), ins, r.rows, n, ctx=CTX[0])
                rep.eq('value', loc(f), ins, r.cols, codom(k), ctx=CTX[0])
                rep.eq('value', loc(f), ins, r.at(I, J), V.val(k, t, J), ctx=CTX[0])
            elif nm == 'value' and np == 2:
                n = sym('N', sort='int', nonneg=True)
                out = m.temp(Arr(n, codom(k), lambda i, j: Poly.at(atom('uninit', 'r', i, j))))
                m.call(f, [m.temp(vec('T', n)), out], e)
                m.fact(lt(I, n))
                rep.eq('value', loc(f), ins, m.load(out).at(I, J), V.val(k, t, J), ctx=CTX[0])
            elif nm == 'get_domain_length':
                rep.eq('metadata accessor', loc(f), ins, m.call(f, [], e), dom1(k) - dom0(k), ctx=CTX[0])
            elif nm == 'is_point_in_domain':
                x = sym('x')
                m.fact(f_not(eq(x, dom1(k))))     # either convention at the end point
                rep.eq('metadata accessor', loc(f), ins, tobool(m.load(m.call(f, [x], e))), f_and(le(dom0(k), x), le(x, dom1(k))), ctx=CTX[0])
            else:
                return
            rep.count('entry points')
            rep.used(m)
        wrap(rep, 'value', loc(f), ins, go)


def as_obj(m, r):
    if isinstance(r, Ptr):
        return r.lv
    v = m.load(r)
    if isinstance(v, Box):
        return (r if isinstance(r, LV) else m.temp(v)).sub(('box',))
    return r if isinstance(r, LV) else m.temp(r)


def rejected(rep, m, rule, f, ins, threw, why):
    """unsuitable operands must end in std::invalid_argument"""
    if not threw:
        return rep.add(came_through(m), rule, loc(f), ins, why)
    w = [t[1] for t in m.throws if 'invalid_argument' not in t[1]]
    rep.add('bad' if w else 'ok', rule, loc(f), ins, 'throws %s' % w[0] if w else '')


def came_through(m):
    """unsuitable operands were not rejected: a violation if some operands of this shape meet none of the guards"""
    if m.throws or m.pc:
        fs = list(CTX[0].facts) + [tobool(c) for c in m.pc] + [f_not(f_and(*[tobool(c) for c in t[0]])) for t in m.throws]
        return 'bad' if not any(model.opaque_atoms(x) for x in fs) and model.find_model(fs, None, 2000)[0] is not None else 'unk'
    return 'bad'
