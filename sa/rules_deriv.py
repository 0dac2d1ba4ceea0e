"""Differentiation of expressions: sum, product, chain, piecewise rules."""
from scen import *
from report import *
import rules_alg as A
from rules_alg import I, J, T_


def exprk(m, name, ty, n):
    """an expression of the given type over n arbitrary functions"""
    p = m.prog
    ks = [fnkey('%s%d' % (name, i)) for i in range(n)]
    k = fnkey(name)
    for i, x in enumerate(ks):
        m.fact(le(dom0(x), dom1(x)))
    first, last = ks[0], ks[-1]
    fs = [le(ONE, codom(k)), le(dom0(k), dom1(k))]
    if ty == 'COMPOSITION':
        for x in ks[:-1]:
            fs.append(eq(codom(x), ONE))
        fs += [eq(dom0(first), dom0(k)), eq(dom1(first), dom1(k)), eq(codom(last), codom(k))]
    elif ty == 'CONCATENATION':
        fs += [eq(dom0(first), dom0(k)), eq(dom1(last), dom1(k))]
        fs += [eq(codom(x), codom(k)) for x in ks]
        fs += [eq(dom1(a), dom0(b)) for a, b in zip(ks, ks[1:])]
    else:
        for x in ks:
            fs += [eq(dom0(x), dom0(k)), eq(dom1(x), dom1(k))]
        fs.append(eq(codom(first), codom(k)))
        for x in ks[1:]:
            fs.append(eq(codom(x), ONE if ty == 'MULTIPLICATION' else codom(k)))
    for f in fs:
        m.fact(f)
    ctor = [f for f in p.find(FE + '::FunctionExpression') if len(f['params']) == 5 and 'list' in p.ty(f['params'][3]['t'])['s']
            and p.ty(f['params'][3]['t']).get('rref')][0]
    lst = m.temp(Seq([('one', Box(Abs('fun', x))) for x in ks]))
    e = m.new(FE, ctor, [pair(dom0(k), dom1(k)), codom(k), P(TYPES.index(ty)), lst, m.temp(Str())])
    return e, ks


def D(x):
    """derivative with respect to the time of a term made of val/ite atoms;
    the time itself is the atom app(T, I)"""
    x = P(x)
    tt = next(iter(T_(I).m))[0][0]
    out = ZERO
    for mo, c in x.m.items():
        for q, (a, e) in enumerate(mo):
            da = D_atom(a, tt)
            if da == ZERO:
                continue
            rest = ONE * c * e
            for r, (b, eb) in enumerate(mo):
                ex = eb - 1 if r == q else eb
                for _ in range(int(ex)):
                    rest = rest * Poly.at(b)
            out = out + rest * da
    return out


def D_atom(a, tt):
    if a is tt or a == tt:
        return ONE
    if a.kind == 'val':
        return V.val(der(a.args[0], ONE), a.args[1], a.args[2]) * D(a.args[1])
    if a.kind == 'ite':
        return ite(a.args[0], D(a.args[1]), D(a.args[2]))
    if a.kind in ('sym', 'dom0', 'dom1', 'codom', 'bv'):
        return ZERO
    raise Unsupported('derivative of %s' % a.kind)


def spec_k(ty, ks, t, j):
    if ty in ('UNIQUE',):
        return V.val(ks[0], t, j)
    if ty == 'NEGATIVE':
        return -V.val(ks[0], t, j)
    if ty == 'SUM':
        r = ZERO
        for k in ks:
            r = r + V.val(k, t, j)
        return r
    if ty == 'MULTIPLICATION':
        r = V.val(ks[0], t, j)
        for k in ks[1:]:
            r = r * V.val(k, t, ZERO)
        return r
    if ty == 'COMPOSITION':
        for k in ks[:-1]:
            t = V.val(k, t, ZERO)
        return V.val(ks[-1], t, j)


def check_deriv(p, rep):
    degs = [0, 1, 2, 3]
    tasks = []
    for ty in TYPES:
        lens = [1] if ty in ('UNIQUE', 'NEGATIVE') else [1, 2, 3, 4]
        for n in lens:
            for d in degs:
                tasks.append((ty, n, d))
    tasks += [(ty, 2, d) for ty in TYPES if ty not in ('UNIQUE', 'NEGATIVE') for d in (4, 5)]
    tasks += [(ty, 1, d) for ty in ('UNIQUE', 'NEGATIVE') for d in (4, 5, 6, 7)]
    tasks += [(ty, n, d) for ty in ('SUM', 'CONCATENATION') for n, d in ((5, 1), (6, 2), (3, 6), (3, 8))] + [('SUM', 9, 1)]
    tasks += [(ty, n, d) for ty in ('MULTIPLICATION', 'COMPOSITION') for n, d in ((5, 1), (6, 1), (5, 2), (3, 4), (8, 1), (6, 2))] + [('MULTIPLICATION', 2, 6)]
    if rep.tier == 'thorough':
        tasks += [(ty, 2, 4) for ty in TYPES if ty not in ('UNIQUE', 'NEGATIVE')] + [('UNIQUE', 1, 4), ('NEGATIVE', 1, 4)]

    def work(rep, task):
        ty, n, d = task
        ins = 'derivative of degree %d of %s of %d functions' % (d, ty, n)
        m = M(p)
        f = virt(p, FE, 'deriv_impl')
        rule = 'derivative rule'
        try:
            e, ks = exprk(m, 'A', ty, n)
            pre = m.load(e)
            r = m.call(f, [P(d)], e)
            lv = r.lv if isinstance(r, Ptr) else m.temp(r)
            o = m.load(lv)
            rep.count('operation scenarios')
            rep.used(m)
            k = fnkey('A')
            if isinstance(o, Abs):
                cd, a, b = codom(o.key), dom0(o.key), dom1(o.key)
            else:
                cd, a, b = o.d['codom_dim_'], o.d['domain_'].d['first'], o.d['domain_'].d['second']
            rep.eq('codomain dimension of a derivative', loc(f), ins, cd, codom(k), ctx=CTX[0])
            rep.eq('domain of a derivative', loc(f), ins, a, dom0(k), ctx=CTX[0])
            rep.eq('domain of a derivative', loc(f), ins, b, dom1(k), ctx=CTX[0])
            rep.ok(interp.same(pre, m.load(e)), 'differentiation leaves the function unchanged', loc(f), ins)
            rep.ok(not A.has_alias(o, {e.root}), 'a derivative owns all its parts', loc(f), ins)
            v = value_of(m, lv)
            m.fact(lt(I, v.rows))
            m.fact(lt(J, codom(k)))
            got = v.at(I, J)
            t = T_(I)
            m.fact(le(dom0(k), t))
            m.fact(lt(t, dom1(k)))
            if ty == 'CONCATENATION':
                ps = [('one', dom0(x), dom1(x), (lambda t, j, x=x: V.val(der(x, P(d)), t, j))) for x in ks]
                want = A.piecewise(ps, t, J)
            else:
                want = spec_k(ty, ks, t, J)
                for _ in range(d):
                    want = D(want)
        except interp.NullDeref as ex:
            rep.add('bad', rule, loc(f), ins, str(ex))
            return
        except Dead:
            rep.add('bad', rule, loc(f), ins, 'every path throws: %s' % [(x[1], x[2]) for x in m.throws][:3])
            return
        except (Unsupported, RecursionError) as ex:
            rep.add('unk', rule, loc(f), ins, str(ex))
            return
        rep.used(m)
        rep.eq(rule, loc(f), ins, got, want, ctx=CTX[0])
        if ty == 'CONCATENATION' and n > 2:
            for i in range(n):
                at = {the_atom(t): P(i) + P(T.Fraction(1, 2))}
                for q, x in enumerate(ks):
                    at[the_atom(dom0(x))], at[the_atom(dom1(x))] = P(q), P(q + 1)
                rep.eq(rule, loc(f), '%s, at the middle of piece %d of unit length' % (ins, i), T.subst(got, at), T.subst(want, at))
    parallel(rep, tasks, work)


def the_atom(x):
    a, = T.atoms_of(x, lambda a: True, deep=False)
    return a
