"""Function algebra: pointwise meaning, metadata, guards, operand preservation."""
from scen import *
from report import *
import interp
import copy as _copy

I, J = sym('I', sort='int', nonneg=True), sym('J', sort='int', nonneg=True)


def T_(i):
    return Poly.at(atom('app', 'T', P(i)))


# ------------------------------------------------------------ specification
class Piece:
    """a function known by specification: key for domain/codomain, value"""

    def __init__(self, key, val):
        self.key, self.val = key, val


def S0(name):
    return fnkey(name + '0')


def SZ(name):
    return fnkey(name + 'z')


def SI(name, i):
    return Poly.at(atom('fni', name, P(i)))


def bval(key, t, j, vector):
    return V.val(key, t, j if vector else ZERO)


def spec(name, ty, vec=True):
    """t, j -> value required of expression `name` of type ty"""
    n = sym(name + '_n', sort='int', nonneg=True)

    def f(t, j):
        jj = j if vec else ZERO
        if ty == 'UNIQUE':
            return V.val(S0(name), t, jj)
        if ty == 'NEGATIVE':
            return -V.val(S0(name), t, jj)
        b = fresh_bv('s')
        if ty == 'SUM':
            return V.val(S0(name), t, jj) + psum(b, n, V.val(SI(name, P(b)), t, jj)) + V.val(SZ(name), t, jj)
        if ty == 'MULTIPLICATION':
            return V.val(S0(name), t, jj) * pprod(b, n, V.val(SI(name, P(b)), t, ZERO)) * V.val(SZ(name), t, ZERO)
        if ty == 'COMPOSITION':
            acc = T.fresh_acc()
            x = T.pfold(b, acc, n, V.val(SI(name, P(b)), Poly.at(acc), ZERO), V.val(S0(name), t, ZERO))
            return V.val(SZ(name), x, jj)
        if ty == 'CONCATENATION':
            return piecewise(pieces(name, ty), t, jj)
        raise ValueError(ty)
    return f


def pieces(name, ty):
    """pieces of operand `name` inside a concatenation: list of
    ('one', dom0, dom1, val) / ('gen', n, dom0(i), dom1(i), val(i))"""
    if ty in ('CONCATENATION', 'UNIQUE'):
        k = lambda key: ('one', dom0(key), dom1(key), lambda t, j: V.val(key, t, j))
        if ty == 'UNIQUE':
            return [k(S0(name))]
        n = sym(name + '_n', sort='int', nonneg=True)
        return [k(S0(name)),
                ('gen', n, lambda i: dom0(SI(name, i)), lambda i: dom1(SI(name, i)), lambda i: (lambda t, j: V.val(SI(name, i), t, j))),
                k(SZ(name))]
    s = spec(name, ty)
    key = fnkey(name)
    return [('one', dom0(key), dom1(key), s)]


def piecewise(ps, t, j):
    """first piece containing t; before the start the first piece at its start,
    after the end the last piece at its end; in a gap the start of the next"""
    inside = lambda a, b: f_and(le(a, t), lt(t, b))

    def go(k, pred, at, last):
        if k == len(ps):
            return last()
        p = ps[k]
        if p[0] == 'one':
            return ite(pred(p[1], p[2]), at(p[1], p[3]), go(k + 1, pred, at, last))
        b = fresh_bv('q')
        c = pred(p[2](P(b)), p[3](P(b)))
        i = pfirst(b, p[1], c)
        return ite(fexists(b, p[1], c), at(p[2](i), p[4](i)), go(k + 1, pred, at, last))

    first, final = ps[0], ps[-1]

    def gap():
        return go(0, lambda a, b: lt(t, a), lambda a, v: v(a, j), lambda: final[3](final[1], j))

    def out():
        return ite(le(t, first[1]), first[3](first[1], j),
                   ite(le(final[2], t), final[3](final[2], j), gap()))
    return go(0, inside, lambda a, v: v(t, j), out)


def invariants(m, name, ty):
    """what holds of every expression of the type that the library builds"""
    k = fnkey(name)
    fs = [le(ONE, codom(k))]

    def samed(x):
        return [eq(dom0(x), dom0(k)), eq(dom1(x), dom1(k))]
    if ty in ('UNIQUE', 'NEGATIVE'):
        fs += samed(S0(name)) + [eq(codom(S0(name)), codom(k))]
    elif ty == 'SUM':
        fs += samed(S0(name)) + [eq(codom(S0(name)), codom(k)), eq(codom(SZ(name)), codom(k))]
    elif ty == 'MULTIPLICATION':
        fs += samed(S0(name)) + [eq(codom(S0(name)), codom(k)), eq(codom(SZ(name)), ONE)]
    elif ty == 'COMPOSITION':
        fs += samed(S0(name)) + [eq(codom(S0(name)), ONE), eq(codom(SZ(name)), codom(k))]
    elif ty == 'CONCATENATION':
        fs += [eq(dom0(S0(name)), dom0(k)), eq(dom1(SZ(name)), dom1(k)),
               eq(codom(S0(name)), codom(k)), eq(codom(SZ(name)), codom(k))]
    for f in fs:
        m.fact(f)
    return fs


OPS = {'operator+': 'sum', 'operator-': 'diff', 'operator*': 'mul', 'compose': 'comp', 'concat': 'concat',
       'operator+=': 'sum', 'operator-=': 'diff', 'operator*=': 'mul'}


def op_fns(p, cls):
    """(function, operation, inplace)"""
    out = []
    for f in sorted(p.fns.values(), key=lambda f: (f['file'], f['l'])):
        if f.get('cls') == cls and f['n'] in OPS and len(f.get('params', [])) == 1 \
                and 'FunctionExpression' in p.ty(f['params'][0]['t'])['s']:
            out.append((f, OPS[f['n']], f['n'].endswith('=')))
    return out


def rr(p, f):
    return bool(p.ty(f['params'][0]['t']).get('rref'))


def required(op, a, b, va, vb):
    """value of a op b; va/vb: operand is vector valued"""
    def f(t, j):
        ja = j if va else ZERO
        jb = j if vb else ZERO
        if op == 'sum':
            return a(t, ja) + b(t, jb)
        if op == 'diff':
            return a(t, ja) - b(t, jb)
        if op == 'mul':
            return a(t, ja) * b(t, jb)
        if op == 'comp':
            return a(b(t, ZERO), j)
    return f


def shapes(op):
    """codomain scenarios: (vecA, vecB)"""
    if op == 'mul':
        return [(False, False), (True, False), (False, True)]
    if op == 'comp':
        return [(True, False), (False, False)]
    return [(True, True)]


def codom_facts(op, va, vb, ka, kb):
    fs = []
    if op in ('sum', 'diff', 'concat'):
        fs.append(eq(codom(ka), codom(kb)))
    elif op == 'mul':
        for v, k in ((va, ka), (vb, kb)):
            fs.append(lt(ONE, codom(k)) if v else eq(codom(k), ONE))
    else:
        fs.append(eq(codom(kb), ONE))
        fs.append(lt(ONE, codom(ka)) if va else eq(codom(ka), ONE))
    if op in ('sum', 'diff', 'mul'):
        fs += [eq(dom0(ka), dom0(kb)), eq(dom1(ka), dom1(kb))]
    if op == 'concat':
        fs += [eq(dom1(ka), dom0(kb))]
    return fs


def req_codom(op, ka, kb, va, vb):
    if op == 'mul':
        return codom(kb) if vb and not va else codom(ka)
    return codom(ka)


def req_domain(op, ka, kb):
    if op == 'comp':
        return dom0(kb), dom1(kb)
    if op == 'concat':
        return dom0(ka), dom1(kb)
    return dom0(ka), dom1(ka)


class Run:
    """one abstract execution of an operation"""

    def __init__(self, p, f, op, inplace, ta, tb, va, vb, alias=False, base=False):
        self.f, self.op, self.inplace, self.ta, self.tb = f, op, inplace, ta, tb
        m = self.m = M(p)
        self.ka, self.kb = fnkey('A'), fnkey('A' if alias else 'B')
        if base:
            A = m.temp(afun('A'), 'o')
            m.fact(le(dom0(fnkey('A')), dom1(fnkey('A'))))
            m.fact(le(ONE, codom(fnkey('A'))))
        else:
            A = expr(m, 'A', ta)
            invariants(m, 'A', ta)
        if alias:
            B = A
        else:
            B = expr(m, 'B', tb)
            invariants(m, 'B', tb)
        for c in codom_facts(op, va, vb, self.ka, self.kb):
            m.fact(c)
        self.A, self.B = A, B
        self.preA, self.preB = m.load(A), m.load(B)
        if not base and ta != 'UNIQUE':
            m.ghosts.append((self.preA, self.ka))
        if not alias and tb != 'UNIQUE':
            m.ghosts.append((self.preB, self.kb))
        self.facts0 = list(CTX[0].facts)
        m.throws = []
        self.dead = False
        try:
            r = m.call(f, [B], A)
        except Dead:
            self.dead = True
            return
        self.res = A if inplace else (r if isinstance(r, LV) else m.temp(r))
        self.postA, self.postB = m.load(A), m.load(B)
        self.pc = m.pc

    def value(self):
        return value_of(self.m, self.res)


def inst(p, f, ta, tb, va, vb, alias=False):
    q = 'f(const&)' if not rr(p, f) else 'f(&&)'
    s = {None: '', '&': ' on lvalue', '&&': ' on rvalue'}[f.get('rq')]
    sh = '%s,%s' % ('vector' if va else 'scalar', 'vector' if vb else 'scalar')
    return '%s%s %s: left=%s right=%s [%s]%s' % (f['n'], s, q, ta, tb, sh, ' same object' if alias else '')


def scenarios(p, cls=FE):
    for f, op, ip in op_fns(p, cls):
        for ta in (TYPES if cls == FE else ['BASE']):
            for tb in TYPES:
                for va, vb in shapes(op):
                    if ip and op == 'mul' and vb and not va:
                        continue
                    yield f, op, ip, ta, tb, va, vb, False
        if cls == FE and not rr(p, f) and f.get('rq') != '&&' and op != 'comp' and op != 'concat':
            for ta in TYPES:
                va, vb = shapes(op)[0]
                yield f, op, ip, ta, ta, va, vb, True


def want_value(r, op, ta, tb, va, vb, alias, wa, wb):
    kb = 'A' if alias else 'B'
    if ta == 'BASE' or wa:
        a = lambda t, j: V.val(fnkey('A'), t, j)
    else:
        a = spec('A', ta)
    if wb:
        b = lambda t, j: V.val(fnkey(kb), t, j)
    else:
        b = spec(kb, tb)
    if op == 'concat':
        pa = [('one', dom0(fnkey('A')), dom1(fnkey('A')), a)] if ta == 'BASE' or wa else pieces('A', ta)
        pb = [('one', dom0(fnkey(kb)), dom1(fnkey(kb)), b)] if wb else pieces(kb, tb)
        ps = pa + pb
        return lambda t, j: piecewise(ps, t, j)
    return required(op, a, b, va, vb)


def expand(x, sp):
    """replace the value of a whole operand by its specification"""
    def fn(a, na):
        if a.kind == 'val' and na[0] in sp and sp[na[0]][0] != 'BASE':
            ty, name = sp[na[0]]
            return spec(name, ty)(na[1], na[2])
        return None
    return subst(x, {}, None, fn)


def run_scenarios(p, rep, fn):
    """fn(run, ids...) per scenario, errors are undecided obligations"""
    tasks = []
    for cls in (FE, NS + 'FunctionBase'):
        scs = list(scenarios(p, cls))
        tasks += [(cls, scs[k:k + 12]) for k in range(0, len(scs), 12)]

    def work(rep, task):
        cls, scs = task
        for f, op, ip, ta, tb, va, vb, al in scs:
            name = inst(p, f, ta, tb, va, vb, al)
            try:
                r = Run(p, f, op, ip, ta, tb, va, vb, al, base=cls != FE)
            except interp.NullDeref as e:
                rep.add('bad', 'analysis', loc(f), name, str(e))
                continue
            except (Unsupported, RecursionError) as e:
                rep.add('unk', 'analysis', loc(f), name, str(e))
                continue
            rep.used(r.m)
            rep.count('operation scenarios')
            fn(rep, r, f, op, ip, ta, tb, va, vb, al, name)
            rep.used(r.m)
    parallel(rep, tasks, work)


def check_semantics(p, rep):
    def one(rep, r, f, op, ip, ta, tb, va, vb, al, name):
        if r.dead:
            rep.add('bad', 'compatible operands are accepted', loc(f), name,
                    'every path throws: %s' % [(t[1], t[2]) for t in r.m.throws][:3])
            return
        try:
            v = r.value()
        except interp.NullDeref as e:
            rep.add('bad', 'pointwise value', loc(f), name, 'evaluating the result dereferences %s' % e)
            return
        except Dead:
            rep.add('bad', 'pointwise value', loc(f), name, 'evaluating the result always throws')
            return
        except (Unsupported, RecursionError) as e:
            rep.add('unk', 'pointwise value', loc(f), name, str(e))
            return
        if not isinstance(v, Arr):
            rep.add('unk', 'pointwise value', loc(f), name, 'value is %r' % (v,))
            return
        m = r.m
        m.fact(lt(I, v.rows))
        cd = req_codom(op, r.ka, r.kb, va, vb)
        m.fact(lt(J, cd))
        try:
            jq = J if va or vb else ZERO
            got = v.at(I, jq)
        except (Unsupported, RecursionError) as e:
            rep.add('unk', 'pointwise value', loc(f), name, str(e))
            return
        # an operand kept whole in the result stands for its own value
        whole = {str(a.args[0]) for a in T.atoms_of(got, lambda a: a.kind == 'val')}
        w = want_value(r, op, ta, tb, va, vb, al, str(r.ka) in whole, str(r.kb) in whole)
        want = w(T_(I), jq)
        vd, d = compare(got, want, ctx=CTX[0])
        if vd != 'ok' and (str(r.ka) in whole or str(r.kb) in whole):
            sp = {r.ka: (ta, 'A'), r.kb: (tb, 'A' if al else 'B')}
            vd, d = compare(expand(got, sp), expand(want, sp), ctx=CTX[0])
        rep.add(vd, 'pointwise value', loc(f), name, d)
        if m.used:
            rep.add('bad', 'no use of a moved-from function', loc(f), name, str(m.used[0]))
        # evaluation inside the domain must not throw
    run_scenarios(p, rep, one)
    check_eval(p, rep)
    check_neg(p, rep)


def check_eval(p, rep):
    for ty in TYPES:
        m = M(p)
        f = virt(p, FE, 'value_impl')
        name = 'evaluation of %s' % ty
        try:
            e = expr(m, 'A', ty)
            invariants(m, 'A', ty)
            v = value_of(m, e)
            m.fact(lt(I, v.rows))
            m.fact(lt(J, codom(fnkey('A'))))
            got = v.at(I, J)
        except (Unsupported, RecursionError) as ex:
            rep.add('unk', 'evaluation', loc(f), name, str(ex))
            continue
        rep.used(m)
        rep.count('operation scenarios')
        w = spec('A', ty)(T_(I), J)
        rep.eq('evaluation', loc(f), name, got, w, ctx=CTX[0])


def check_neg(p, rep):
    for cls in (FE, NS + 'FunctionBase'):
        for f in sorted(p.fns.values(), key=lambda f: f['l']):
            if f.get('cls') != cls or f['n'] != 'operator-' or f.get('params'):
                continue
            for ty in (TYPES if cls == FE else ['BASE']):
                name = 'unary minus%s of %s' % (' on rvalue' if f.get('rq') == '&&' else '', ty)
                m = M(p)
                try:
                    if ty == 'BASE':
                        e = m.temp(afun('A'), 'o')
                        m.fact(le(dom0(fnkey('A')), dom1(fnkey('A'))))
                    else:
                        e = expr(m, 'A', ty)
                        invariants(m, 'A', ty)
                    r = m.call(f, [], e)
                    r = r if isinstance(r, LV) else m.temp(r)
                    v = value_of(m, r)
                    m.fact(lt(I, v.rows))
                    m.fact(lt(J, codom(fnkey('A'))))
                    got = v.at(I, J)
                except interp.NullDeref as ex:
                    rep.add('bad', 'pointwise value', loc(f), name, str(ex))
                    continue
                except (Unsupported, RecursionError, Dead) as ex:
                    rep.add('unk', 'pointwise value', loc(f), name, repr(ex))
                    continue
                rep.used(m)
                rep.count('operation scenarios')
                a = spec('A', ty) if ty != 'BASE' else (lambda t, j: V.val(fnkey('A'), t, j))
                rep.eq('pointwise value', loc(f), name, got, -a(T_(I), J), ctx=CTX[0])
                o = m.load(r)
                if isinstance(o, Rec):
                    rep.eq('negation metadata', loc(f), name, o.d['codom_dim_'], codom(fnkey('A')), ctx=CTX[0])


def check_meta(p, rep):
    def one(rep, r, f, op, ip, ta, tb, va, vb, al, name):
        if r.dead:
            rep.add('bad', 'compatible operands are accepted', loc(f), name, 'every path throws')
            return
        o = r.m.load(r.res)
        if not isinstance(o, Rec):
            rep.add('unk', 'result metadata', loc(f), name, repr(o))
            return
        d0, d1 = req_domain(op, r.ka, r.kb)
        rep.eq('codomain dimension of the result', loc(f), name, o.d['codom_dim_'], req_codom(op, r.ka, r.kb, va, vb), ctx=CTX[0])
        rep.eq('start of the domain of the result', loc(f), name, o.d['domain_'].d['first'], d0, ctx=CTX[0])
        rep.eq('end of the domain of the result', loc(f), name, o.d['domain_'].d['second'], d1, ctx=CTX[0])
    run_scenarios(p, rep, one)


# ------------------------------------------------------------------ guards
F_ = Fraction
TOL = F_(1, 10**9)
# (name, domA, codA, domB, codB, operations accepting it)
ALLOPS = {'sum', 'diff', 'mul', 'mulip', 'comp', 'concat', 'dot'}


def guard_cases():
    d = (F_(0), F_(1))
    out = []
    sm = {'sum', 'diff', 'mul', 'mulip', 'dot'}
    nocat = ALLOPS - {'concat'}
    out.append(('equal domains, both scalar', d, 1, d, 1, nocat, {'concat'}))
    out.append(('equal domains, both of dimension 3', d, 3, d, 3, {'sum', 'diff', 'dot'}, {'mul', 'mulip', 'comp', 'concat'}))
    out.append(('dimensions 3 and 2', d, 3, d, 2, set(), ALLOPS))
    out.append(('dimensions 2 and 3', d, 2, d, 3, set(), ALLOPS))
    out.append(('dimensions 3 and 1', d, 3, d, 1, {'mul', 'mulip', 'comp'}, {'sum', 'diff', 'dot', 'concat'}))
    out.append(('dimensions 1 and 3', d, 1, d, 3, {'mul'}, ALLOPS - {'mul'}))
    for nm, e in (('1e-6', F_(1, 10**6)), ('0.3', F_(3, 10)), ('2', F_(2))):
        for sg in (1, -1):
            s = '%s%s' % ('+' if sg > 0 else '-', nm)
            w = (F_(-5), F_(5))
            out.append(('start differs by ' + s, w, 1, (w[0] + sg * e, w[1]), 1, {'comp'}, sm | {'concat'}))
            out.append(('end differs by ' + s, w, 1, (w[0], w[1] + sg * e), 1, {'comp'}, sm | {'concat'}))
            out.append(('pieces separated by ' + s, w, 1, (w[1] + sg * e, w[1] + 10), 1, {'comp'}, sm | {'concat'}))
    for w in ((F_(1000), F_(2000)), (F_(-2000), F_(-1000)), (F_(10**6), F_(10**6) + 1), (F_(0), F_(1, 1000))):
        wn = ', domain [%s, %s]' % w
        out.append(('equal domains' + wn, w, 1, w, 1, nocat, {'concat'}))
        out.append(('adjacent pieces' + wn, w, 1, (w[1], w[1] + 1), 1, {'concat', 'comp'}, sm))
        for sg in (1, -1):
            e = sg * F_(1, 10**6)
            out.append(('start differs by %s1e-6%s' % ('+' if sg > 0 else '-', wn), w, 1, (w[0] + e, w[1]), 1, {'comp'}, sm | {'concat'}))
            out.append(('end differs by %s1e-6%s' % ('+' if sg > 0 else '-', wn), w, 1, (w[0], w[1] + e), 1, {'comp'}, sm | {'concat'}))
            out.append(('pieces separated by %s1e-6%s' % ('+' if sg > 0 else '-', wn), w, 1, (w[1] + e, w[1] + 10), 1, {'comp'}, sm | {'concat'}))
    out.append(('both ends differ by 1e-6', d, 1, (F_(1, 10**6), 1 + F_(1, 10**6)), 1, {'comp'}, sm | {'concat'}))
    out.append(('domain inside the other', (F_(0), F_(4)), 1, (F_(1), F_(3)), 1, {'comp'}, sm | {'concat'}))
    out.append(('dimensions 7 and 8', d, 7, d, 8, set(), ALLOPS))
    out.append(('equal domains, both of dimension 7', d, 7, d, 7, {'sum', 'diff', 'dot'}, {'mul', 'mulip', 'comp', 'concat'}))
    out.append(('adjacent pieces', d, 1, (F_(1), F_(2)), 1, {'concat', 'comp'}, sm))
    out.append(('adjacent pieces of dimension 3', d, 3, (F_(1), F_(2)), 3, {'concat'}, ALLOPS - {'concat'}))
    out.append(('adjacent pieces of dimensions 3 and 2', d, 3, (F_(1), F_(2)), 2, set(), ALLOPS))
    out.append(('second piece before the first', d, 1, (F_(-1), F_(0)), 1, {'comp'}, sm | {'concat'}))
    return out


def operand(m, name, ty, dom, cod):
    k = fnkey(name)
    m.fconst[k] = (dom[0], dom[1], cod)
    if ty == 'BASE':
        return m.temp(afun(name), 'o')
    for kk in (S0(name), SZ(name)):
        m.fconst[kk] = (dom[0], dom[1], cod)
    e = expr(m, name, ty)
    m.write(e.sub(('f', 'domain_')), pair(*dom))
    m.write(e.sub(('f', 'codom_dim_')), P(cod))
    return e


def guard_fns(p):
    out = []
    for cls in (FE, NS + 'FunctionBase'):
        for f, op, ip in op_fns(p, cls):
            out.append((f, 'mulip' if ip and op == 'mul' else op, cls))
    for f in sorted(p.fns.values(), key=lambda f: f['l']):
        if f.get('cls') == NS + 'FunctionBase' and f['n'] == 'dot':
            out.append((f, 'dot', NS + 'FunctionBase'))
    return out


def check_guards(p, rep):
    cases = guard_cases()
    tasks = guard_fns(p)
    rep.count('guarded operations', len(tasks))

    def work(rep, task):
        f, op, cls = task
        for ta in (['UNIQUE', 'SUM', 'COMPOSITION', 'CONCATENATION', 'MULTIPLICATION', 'NEGATIVE'] if cls == FE else ['BASE']):
            for name, da, ca, db, cb, acc, rej in cases:
                m = M(p)
                m.fconst = {}
                ins = '%s%s(%s): %s, left operand %s' % (f['n'], {None: '', '&': ' on lvalue', '&&': ' on rvalue'}[f.get('rq')],
                                                        '&&' if rr(p, f) else 'const&', name, ta)
                try:
                    A = operand(m, 'A', ta, da, ca)
                    B = operand(m, 'B', 'BASE' if op == 'dot' else 'UNIQUE', db, cb)
                    preA, preB = m.load(A), m.load(B)
                    broken = []

                    def on_throw(mm):
                        # operands given up by the caller (rvalues) may be consumed
                        if (f.get('rq') != '&&' and not interp.same(mm.load(A), preA)) or \
                                (not rr(p, f) and not interp.same(mm.load(B), preB)):
                            broken.append(1)
                    m.on_throw = on_throw
                    m.throws = []
                    try:
                        m.call(f, [B], A)
                        dead = False
                    except Dead:
                        dead = True
                except (Unsupported, RecursionError) as e:
                    rep.add('unk', 'guard', loc(f), ins, str(e))
                    continue
                rep.used(m)
                rep.count('operation scenarios')
                if op in acc:
                    rep.ok(not m.throws, 'compatible operands are accepted', loc(f), ins,
                           'throws %s at %s' % (m.throws[0][1], m.throws[0][2]) if m.throws else '')
                elif op in rej:
                    if not dead:
                        definite = not m.pc and not m.throws
                        rep.add('bad' if definite or not m.throws else 'unk', 'incompatible operands are rejected', loc(f), ins,
                                'returns normally')
                    else:
                        bad = [t for t in m.throws if 'invalid_argument' not in t[1]]
                        rep.ok(not bad, 'incompatible operands are rejected', loc(f), ins, 'throws %s' % (bad[0][1:3],) if bad else '')
                        if op != 'dot':
                            rep.ok(not broken, 'a rejected operation leaves its operands unchanged', loc(f), ins,
                                   'an operand was modified before the exception')
    parallel(rep, tasks, work)


# ------------------------------------------------------- operand preservation
def has_alias(v, roots):
    if isinstance(v, Ptr):
        return v.lv is not None and v.lv.root in roots
    if isinstance(v, LV):
        return v.root in roots
    if isinstance(v, Box):
        return v.v is not None and has_alias(v.v, roots)
    if isinstance(v, Rec):
        return any(has_alias(x, roots) for x in v.d.values())
    if isinstance(v, Seq):
        for s in v.segs:
            if s[0] == 'one' and has_alias(s[1], roots):
                return True
            if s[0] == 'gen' and has_alias(s[2](P(fresh_bv('z'))), roots):
                return True
    if isinstance(v, Sel):
        return has_alias(v.a, roots) or has_alias(v.b, roots)
    return False


def diff_of(a, b):
    if isinstance(a, Rec) and isinstance(b, Rec):
        return [k for k in a.d if not interp.same(a.d[k], b.d.get(k))]
    return ['state']


def check_preserve(p, rep):
    def one(rep, r, f, op, ip, ta, tb, va, vb, al, name):
        if r.dead:
            return
        lval = f.get('rq') != '&&' and not ip
        if lval and not al:
            rep.ok(interp.same(r.preA, r.postA), 'an lvalue left operand is unchanged', loc(f), name,
                   'changed: %s' % ', '.join(diff_of(r.preA, r.postA)))
        if not rr(p, f) and not (al and ip):
            rep.ok(interp.same(r.preB, r.postB), 'an lvalue right operand is unchanged', loc(f), name,
                   'changed: %s' % ', '.join(diff_of(r.preB, r.postB)))
        o = r.m.load(r.res)
        rep.ok(not has_alias(o, {r.A.root, r.B.root}), 'the result owns all its parts', loc(f), name, 'the result points into an operand')
    run_scenarios(p, rep, one)
    check_const_calls(p, rep)


def check_const_calls(p, rep):
    """evaluation, differentiation, copying and printing leave the function unchanged"""
    for f in sorted(p.fns.values(), key=lambda f: (f['file'], f['l'])):
        pass
    names = [('deriv_impl', 1), ('clone_impl', 0)]
    for ty in TYPES:
        for nm, na in names:
            m = M(p)
            ins = '%s of %s' % (nm, ty)
            try:
                f = virt(p, FE, nm)
                e = expr(m, 'A', ty)
                invariants(m, 'A', ty)
                pre = m.load(e)
                m.call(f, [ONE] if na else [], e)
                post = m.load(e)
            except (Unsupported, RecursionError, Dead) as ex:
                rep.add('unk', 'reading a function leaves it unchanged', FE, ins, repr(ex))
                continue
            rep.used(m)
            rep.ok(interp.same(pre, post), 'reading a function leaves it unchanged', loc(f), ins, ', '.join(diff_of(pre, post)))
        m = M(p)
        f = virt(p, FE, 'value_impl')
        try:
            e = expr(m, 'A', ty)
            invariants(m, 'A', ty)
            pre = m.load(e)
            value_of(m, e)
            rep.ok(interp.same(pre, m.load(e)), 'reading a function leaves it unchanged', loc(f), 'evaluation of ' + ty, '')
        except (Unsupported, RecursionError, Dead) as ex:
            rep.add('unk', 'reading a function leaves it unchanged', loc(f), 'evaluation of ' + ty, repr(ex))
