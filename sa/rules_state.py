"""No hidden shared state: storage classes, sharing members, and dependence of results on earlier calls."""
import re
from scen import *
from report import *
import rules_basis as B
import rules_leaf as L
import rules_gs as G
import rules_quad as Q
import rules_elem as E
from rules_elem import wrap
from absfun import pick
from fractions import Fraction as Fr

SYNC = re.compile(r'std::(atomic|mutex|recursive_mutex|shared_mutex|once_flag|condition_variable|_?_?atomic)')
LOCK = re.compile(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)')
READ_OPS = {'+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '()', '!'}


def children(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            yield k, y


def refs(p, n, mode='read'):
    """(reference node, how it is used) for every reference to static storage below n"""
    k = n.get('k')
    if k == 'ref' and n.get('dk') in ('global', 'staticlocal'):
        yield n, mode
        return
    if k == 'mem' and n.get('static'):
        yield n, mode
    if k == 'bin' and n.get('op') == '=' or k == 'cassign':
        yield from refs(p, n['a'], 'write')
        yield from refs(p, n['b'], 'read')
        return
    if k == 'un' and n.get('op') in ('++', '--', '&'):
        yield from refs(p, n['e'], 'write')
        return
    if k == 'mcall':
        const = (n.get('fn') or {}).get('const')
        yield from refs(p, n['o'], mode if const and mode == 'read' else 'read' if const else 'write')
        for x in n.get('a') or []:
            yield from arg(p, n, x)
        return
    if k == 'opcall':
        fn = n.get('fn') or {}
        a = n.get('a') or []
        memb = bool(fn.get('cls')) and len(a) >= 1
        for i, x in enumerate(a):
            if i == 0 and memb:
                yield from refs(p, x, 'read' if fn.get('const') else 'write')
            else:
                yield from arg(p, n, x, i - 1 if memb else i)
        return
    if k in ('call', 'ctor'):
        for i, x in enumerate(n.get('a') or []):
            yield from arg(p, n, x, i)
        for q, x in children(n):
            if q not in ('a', 'fn'):
                yield from refs(p, x)
        return
    if k == 'mem':
        yield from refs(p, n['b'], mode) if isinstance(n.get('b'), dict) else ()
        return
    if k in ('icast', 'cast', 'paren', 'idx', 'cond'):
        for q, x in children(n):
            yield from refs(p, x, mode if q in ('e', 'a', 'b') else 'read')
        return
    for q, x in children(n):
        if q == 'fn':
            continue
        m = 'read'
        if q in ('init',) and 't' in n:
            t = p.ty(n['t'])
            if t.get('ref') and 'const' not in t['s'].split('&')[0]:
                m = 'write'
        yield from refs(p, x, m)


def arg(p, n, x, i=None):
    pt = ((n.get('fn') or {}).get('pt') or [])
    m = 'read'
    if i is None:
        i = (n.get('a') or []).index(x)
    if 0 <= i < len(pt):
        t = p.ty(pt[i])
        s = t['s']
        if (t.get('ref') or s.rstrip().endswith('&')) and not s.lstrip().startswith('const') and 'Eigen::Ref<const' not in s:
            m = 'write'
    return refs(p, x, m)


def has_lock(p, f):
    def go(n):
        t = n.get('t')
        if isinstance(t, int) and LOCK.search(p.ty(t)['c']):
            return True
        return any(go(x) for q, x in children(n) if q != 'fn')
    return any(go(x) for x in ([f['body']] if f.get('body') else []))


def check_storage(p, rep):
    """every variable with static storage is constant, thread-local, atomic, or only touched under a lock"""
    mutable = {}
    for key, v in p.vars.items():
        if '/repo/' not in v['file'] and not v['file'].startswith(front.REPO):
            continue
        t = p.ty(v['t'])
        rep.count('variables with static storage')
        if v.get('const') or v.get('constexpr') or v.get('tls') or SYNC.search(t['c']) or SYNC.search(t['s']):
            rep.add('ok', 'static storage', '%s:%s' % (short_file(v['file']), v['l']), v['q'])
            continue
        mutable[(v.get('q'), bool(v.get('staticlocal')), v['n'])] = v
    uses = {}
    for f in p.fns.values():
        roots = ([f['body']] if f.get('body') else []) + [i for i in f.get('inits') or [] if isinstance(i, dict)]
        for r in roots:
            for n, mode in refs(p, r):
                for (q, sl, nm), v in mutable.items():
                    if (not sl and n.get('q') == q) or (sl and n.get('dk') == 'staticlocal' and n.get('n') == nm and v['l'] >= f['l'] and v['file'] == f['file'] and
                                                        v['l'] <= f.get('el', 10 ** 9)):
                        uses.setdefault((q, sl, nm, v['file'], v['l']), []).append((f, n, mode))
        rep.count('functions searched for static storage')
    for (q, sl, nm), v in mutable.items():
        us = uses.get((q, sl, nm, v['file'], v['l']), [])
        w = [u for u in us if u[2] == 'write' and not has_lock(p, u[0])]
        wh = '%s:%s' % (short_file(v['file']), v['l'])
        if w:
            f, n, _ = w[0]
            rep.add('bad', 'static storage', loc(f, n.get('l')), nm, 'modifies %s (%s), which every object and thread shares, without synchronisation' % (nm, p.ty(v['t'])['s']))
        else:
            rep.add('ok', 'static storage', wh, nm)


def short_file(fn):
    i = fn.find('/repo/')
    return fn[i + 6:] if i >= 0 else fn


SHARE = re.compile(r'std::(shared_ptr|weak_ptr|reference_wrapper|basic_string_view|span)\b|Eigen::(Ref|Map)<')


def check_members(p, rep):
    """the classes of the library hold their parts by value or through owning pointers"""
    for r in sorted(p.records.values(), key=lambda r: r['full']):
        if not r['full'].startswith('gsplines::'):
            continue
        for f in r['fields']:
            t = p.ty(f['t'])
            rep.count('data members')
            c = t['c']
            if c.startswith('std::function<'):
                c = 'std::function'
            bad = t.get('ref') or c.rstrip().endswith('&') or (c.rstrip().rstrip('const').rstrip().endswith('*')) or SHARE.search(c)
            wh = '%s:%s %s' % (short_file(r.get('file', '')), f.get('l'), r['full'])
            if not bad:
                rep.add('ok', 'members own what they hold', wh, f['n'])
                continue
            shared_const = re.match(r'std::shared_ptr<const ', c)
            if shared_const:
                rep.add('unk', 'members own what they hold', wh, f['n'], 'shared but constant: %s' % t['s'])
            else:
                rep.add('bad', 'members own what they hold', wh, f['n'], 'the member of type %s shares its target with other objects' % t['s'])


# ---------------------------------------------------------------- histories
class Sc:
    def __init__(self, name, where, build, run, nobj=2, nargs=1):
        self.name, self.where, self.build, self.run = name, where, build, run
        self.nobj, self.nargs = nobj, nargs


def tvar(i):
    return sym('t%d' % i)


HEAVY = ('DotProduct',)


def s_leaf(p):
    out = []
    mulf = [f for f, op, ip in A_ops(p) if op == 'mul'][0]
    dotc = [f for f in p.fns.values() if f.get('cls') == NS + 'DotProduct' and f.get('ctor') and len(f['params']) == 2][0]
    for kind in L.LEAVES + ['DotProduct']:
        if kind == 'Expression':
            continue

        def build(m, i, kind=kind):
            s_ = i == 2            # the third object differs from the first in its coefficients only
            n_ = 0 if s_ else i
            d = pair(Fr(1, 4) + n_, Fr(5, 4) + n_)
            if kind == 'CanonicPolynomial':
                c = next(iter(E.ctor_of(p, kind, 2, lambda ts: '&&' not in ts[1])))
                return m.new(NS + kind, c, [d, m.temp(vec('Ch%d' % i, P(3 + n_)))])
            if kind == 'VectorConstant':
                c = next(iter(E.ctor_of(p, 'ConstFunction', 2)))
                return m.new(NS + 'ConstFunction', c, [d, m.temp(vec('Ch%d' % i, P(2 + n_)))])
            if kind == 'DotProduct':
                c = next(iter(E.ctor_of(p, 'ConstFunction', 2)))
                v = m.new(NS + 'ConstFunction', c, [d, m.temp(vec('Ch%d' % i, P(2 + n_)))])
                q = next(iter(E.ctor_of(p, 'CanonicPolynomial', 2, lambda ts: '&&' not in ts[1])))
                w = L.build(m, 'mul', mulf, L.express(m, v), L.express(m, m.new(NS + 'CanonicPolynomial', q, [d, m.temp(vec('Dh%d' % i, P(2)))])))
                return m.new(NS + kind, dotc, [w, v])
            return L.leaf(m, kind, 'h%d' % i, (Fr(1, 4) + n_, Fr(5, 4) + n_))[0]

        def run(m, o, i, a, kind=kind):
            r = []
            ts = [[tvar(0), tvar(1)], [tvar(2), tvar(3), tvar(4)], [tvar(0), tvar(3)]][a]
            for d in ((0, 1, 2) if kind not in HEAVY else (0, 1)):
                q = o if d == 0 else L.derive(m, o, d)
                v = L.evaluate(m, q, ts)
                r += [('derivative %d, rows' % d, topoly(v.rows)), ('derivative %d, columns' % d, topoly(v.cols))]
                r += [('derivative %d, point %d' % (d, j), topoly(v.at(P(j), ZERO))) for j in range(len(ts))]
            return r
        out.append(Sc(kind, virt(p, NS + {'ZeroConstant': 'ConstFunction', 'VectorConstant': 'ConstFunction'}.get(kind, kind), 'value_impl'), build, run, 3, 3))
    return out


def s_expr(p):
    out = []
    ov = {}
    for f, op, ip in A_ops(p):
        ov.setdefault(op, []).append(f)
    for op, fs in sorted(ov.items()):
        f = fs[0]
        for ks in (('Sin', 'CanonicPolynomial'), ('CanonicPolynomial', 'Exponential')):
            def build(m, i, f=f, op=op, ks=ks):
                d0 = (Fr(1, 4), Fr(5, 4))
                d1 = (Fr(5, 4), Fr(9, 4)) if op == 'concat' else d0
                a = L.express(m, L.leaf(m, ks[i], 'a%d' % i, d0)[0])
                b = L.express(m, L.leaf(m, ks[1 - i], 'b%d' % i, d1)[0])
                return L.build(m, op, f, a, b)

            def run(m, o, i, a):
                r = []
                for k in (0, 1):
                    t = tvar(4 * a + k)
                    m.fact(lt(P(Fr(1, 4) + k), t)), m.fact(lt(t, P(Fr(5, 4) + k)))
                for d in (0, 1, 2):
                    q = o if d == 0 else L.derive(m, o, d)
                    v = L.evaluate(m, q, [tvar(4 * a), tvar(4 * a + 1)])
                    r += [('derivative %d, point %d' % (d, j), topoly(v.at(P(j), ZERO))) for j in (0, 1)]
                return r
            out.append(Sc('%s of %s and %s' % (op, ks[0], ks[1]), f, build, run, 2, 2))
    return out


def A_ops(p):
    import rules_alg as A
    return [(f, op, ip) for f, op, ip in A.op_fns(p, FE) if not ip and f.get('rq') != '&&' and not A.rr(p, f)]


def s_spline(p):
    # objects: a reference one; another number of intervals and components; the same numbers with other lengths;
    # other coefficients only; another basis only; another start only
    objs = [(0, (1, 3), 2, 'h0', 0), (1, (2, 3, 4), 3, 'h1', 0), (0, (3, 1), 2, 'h2', 0), (0, (1, 3), 2, 'h3', 0), (0, (1, 3), 2, 'h0', 1), (-1, (1, 3), 2, 'h0', 0)]

    def build(m, i):
        t0, nt, cd, nm, bs = objs[i]
        b, k = G.basis(m, 'B%d' % bs)
        return G.numspline(m, nm, [Fr(x) for x in nt], b, k, P(cd), t0v=t0)

    def run(m, o, i, a):
        cd = objs[i][2]
        r = []
        out_ = m.temp(G.out_arr(2, P(cd)))
        ts = [tvar(20), tvar(21)] if a == 0 else [tvar(22), tvar(21)] if a == 1 else [tvar(23), tvar(20)]
        for t, lo, hi in ((tvar(20), 1, 2), (tvar(21), 3, 4), (tvar(22), 0, 1), (tvar(23), 3, 4)):
            m.fact(lt(P(lo), t))
            m.fact(lt(t, P(hi)))
        m.call(virt(p, G.GB, 'value_impl'), [m.temp(Arr(P(2), ONE, lambda a, b: pick(a, ts))), out_], o)
        v = m.load(out_)
        for a in (0, 1):
            for c in range(cd):
                r.append(('point %d, component %d' % (a, c), topoly(v.at(P(a), P(c)))))
        return r
    return [Sc('spline', virt(p, G.GB, 'value_impl'), build, run, len(objs), 3)]


def s_basis(p):
    out = []
    mk = [('BasisLegendre', (3, 4), lambda m, i: B.legendre(m, 3 + i)), ('BasisLagrange', (3, 3), lambda m, i: B.lagrange(m, [Fr(-1), Fr(i, 3), Fr(1)])),
          ('BasisLagrange', (2, 3), lambda m, i: B.lagrange(m, [Fr(-1), Fr(1)] if i == 0 else [Fr(-1), Fr(1, 3), Fr(1)])),
          ('Basis0101', (6, 6), lambda m, i: B.b0101(m, P(Fr(1, 3) if i else Fr(1, 2))))]
    for cls, dim, make in mk:
        for meth in ('eval_on_window', 'eval_derivative_on_window', 'eval_derivative_wrt_tau_on_window'):
            def build(m, i, make=make):
                return make(m, i)

            def run(m, o, i, ar, cls=cls, dim=dim, meth=meth):
                # strictly between two nodes of both Lagrange variants; the argument lists differ in one argument
                s = sym('s%d' % (ar == 1))
                m.fact(lt(P(Fr(1, 2)), s)), m.fact(lt(s, P(Fr(3, 4))))
                tau = sym('tau%d' % (ar == 2), nonneg=True)
                m.fact(lt(ZERO, tau))
                a = [s, tau] + ([P(2 if ar == 3 else 1)] if meth != 'eval_on_window' else [])
                f, v = B.row(m, cls, o, meth, dim[i], a)
                return [('function %d' % j, x) for j, x in enumerate(v)]
            out.append(Sc('%s::%s' % (cls, meth), virt(p, B.B + cls, meth), build, run, 2, 4 if meth != 'eval_on_window' else 3))
        for meth in ('add_derivative_matrix', 'add_derivative_matrix_deriv_wrt_tau'):
            def run2(m, o, i, ar, cls=cls, dim=dim, meth=meth):
                tau = sym('tau%d' % (ar == 1), nonneg=True)
                m.fact(lt(ZERO, tau))
                f = virt(p, B.B + cls, meth)
                buf = m.temp(Arr(P(dim[i]), P(dim[i]), lambda a, b: ZERO))
                m.call(f, [tau, P((3 if cls == 'Basis0101' else 1) if ar < 2 else 2), buf], o)
                v = m.load(buf)
                return [('entry %d,%d' % (a, b), topoly(v.at(P(a), P(b)))) for a in range(dim[i]) for b in range(dim[i])]
            out.append(Sc('%s::%s' % (cls, meth), virt(p, B.B + cls, meth), build, run2, 2, 2 if cls == 'Basis0101' and 'wrt' in meth else 3))
        gdm = virt(p, B.B + cls, 'get_derivative_matrix_block')

        def run3(m, o, i, ar, dim=dim, gdm=gdm):
            v = m.load(m.call(gdm, [P(ar + 1)], o))
            return [('rows', topoly(v.rows)), ('columns', topoly(v.cols))] + [('entry %d,%d' % (a, b), topoly(v.at(P(a), P(b)))) for a in range(dim[i]) for b in range(dim[i])]
        out.append(Sc('%s::get_derivative_matrix_block' % cls, gdm, build, run3, 2, 3))
    return out


def scenario_check(scs, p, rep):
    """objects o0, o1, ... used with arguments a0, a1, ...: every use yields what it yields on its own,
    after any other use of the same or of another object"""
    def one(rep, sc):
        f = sc.where

        def compare_(kind, got, want, ctx):
            if len(got) != len(want):
                rep.add('bad', 'independent of earlier calls', loc(f), '%s, %s' % (sc.name, kind), '%d results instead of %d' % (len(got), len(want)))
            for (l, g), (_, w) in zip(got, want):
                rep.eq('independent of earlier calls', loc(f), '%s, %s, %s' % (sc.name, kind, l), g, w, ctx=ctx)

        def go():
            uses = [(i, a) for i in range(sc.nobj) for a in range(sc.nargs)]
            for i, a in uses:
                m = MM(p)
                want = sc.run(m, sc.build(m, i), i, a)
                for j, b in uses:
                    rep.count('call histories')
                    m = MM(p)
                    o = sc.build(m, j)
                    sc.run(m, o, j, b)
                    if i == j:
                        compare_('second call on the object', sc.run(m, o, i, a), want, CTX[0])
                        continue
                    compare_('after another object was used', sc.run(m, sc.build(m, i), i, a), want, CTX[0])
                    if a == b:
                        rep.count('call histories')
                        m = MM(p)
                        o = sc.build(m, i)
                        o2 = sc.build(m, j)
                        sc.run(m, o2, j, b)
                        compare_('object built before another one is used', sc.run(m, o, i, a), want, CTX[0])
                rep.used(m)
        wrap(rep, 'independent of earlier calls', loc(f), sc.name, go)
    parallel(rep, scs, one)


class MM(M):
    UNROLL = 24


def check_history_leaf(p, rep):
    scenario_check(s_leaf(p), p, rep)


def check_history_expr(p, rep):
    scenario_check(s_expr(p), p, rep)


def check_history_spline(p, rep):
    scenario_check(s_spline(p), p, rep)


def check_history_basis(p, rep):
    scenario_check(s_basis(p), p, rep)
