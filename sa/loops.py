"""Loop summarisation for the value analysis."""
from lib import *
from lib import Lib
import term as T
from fractions import Fraction

RECS = {}
_rid = itertools.count()


def linear_in(p, k):
    """(a, b) with p = a*k + b and a, b free of k, else None"""
    a, b = {}, {}
    for mo, c in p.m.items():
        hit = None
        for x, e in mo:
            if x is k:
                if e != 1:
                    return None
                hit = x
            elif k in x.fv or (isinstance(e, Poly) and k in e.fv):
                return None
        if hit is None:
            b[mo] = c
        else:
            a[tuple(y for y in mo if y[0] is not k)] = c
    return Poly(a), Poly(b)


def conjuncts(f):
    if f.k == 'and':
        return list(f.args)
    if f.k == 'true':
        return []
    return [f]


def solve_k(C, k):
    """unique k satisfying the conjunction C: (k*, residual side condition) or None"""
    lows, ups = [], []
    for c in conjuncts(C):
        if c.k != 'cmp' or k not in c.fv:
            continue
        op, p = c.args
        l = linear_in(p, k)
        if l is None:
            continue
        a, b = l
        if op == '=':
            if a.is_const():
                ks = -b * Poly.c(1 / a.const())
                if all(x.denominator == 1 for x in ks.m.values()):
                    return ks, TRUE
                # fractional coefficients: integrality condition
                d = a.const()
                q = cur().divide(-b if d > 0 else b, Poly.c(abs(d)))
                if q is None:
                    q = idiv(-b if d > 0 else b, Poly.c(abs(d)))
                return q, eq(q * a + b, ZERO)
            sgn = 1
            num = -b
            q = cur().divide(num, a)
            if q is None and dec(lt(a, ZERO)):
                q = cur().divide(b, -a)
            if q is None:
                q = idiv(num, a)
            return q, eq(q * a + b, ZERO)
        # normal form: p < 0 or p <= 0
        if a.is_const():
            (ups if a.const() > 0 else lows).append((op, a, b))
        elif all(v > 0 for v in a.m.values()):
            ups.append((op, a, b))
        elif all(v < 0 for v in a.m.values()):
            lows.append((op, a, b))
    for op1, a1, b1 in ups:
        for op2, a2, b2 in lows:
            if a1 != -a2:
                continue
            # a k + b1 <= 0 -> a k <= u ; -a k + b2 <= 0 -> a k >= b2
            u = -b1 if op1 == '<=' else -b1 - 1
            lo = b2 if op2 == '<=' else b2 + 1
            w = u - lo + 1
            if w == a1 or (w - a1).is_const() and (w - a1).const() == 0:
                if a1 == ONE:
                    return u, TRUE
                q = cur().divide(u, a1)
                if q is None:
                    q = idiv(u, a1)
                return q, TRUE
    return None


def ite_atoms(p):
    out = []
    for mo in p.m:
        for a, e in mo:
            if a.kind == 'ite' and a not in out:
                out.append(a)
    return out


def ksum(k, n, body, rng):
    """sum over k in [0,n) of body; rng: range facts on k (formulas in k)"""
    if not body.m:
        return ZERO
    for a in ite_atoms(body):
        c = a.args[0]
        if k not in c.fv:
            x = subst(body, {a: a.args[1]})
            y = subst(body, {a: a.args[2]})
            with under(c):
                sx = ksum(k, n, x, rng)
            with under(f_not(c)):
                sy = ksum(k, n, y, rng)
            return ite(c, sx, sy)
        s = solve_k(c, k)
        if s is None:
            s = solve_k(f_not(c), k)
            neg = True
        else:
            neg = False
        if s is None:
            continue
        ks, res = s
        if k in ks.fv:
            continue
        hit, other = (a.args[1], a.args[2]) if not neg else (a.args[2], a.args[1])
        bo = subst(body, {a: other})
        bh = subst(body, {a: hit})
        cc = f_not(c) if neg else c
        delta = bh - bo
        valid = [subst(cc, {k: ks}), res, le(ZERO, ks)] + [subst(r, {k: ks}) for r in rng]
        valid = cur().simp(f_and(*valid))
        d = gite(valid, lambda: cur().simp(subst(delta, {k: ks})), lambda: ZERO)
        return ksum(k, n, bo, rng) + d
    return psum(k, n, body)


class Loop:
    """summary of one loop"""

    def __init__(self, mach, k, n, crange, cells, post, init):
        self.m, self.k, self.n = mach, k, n
        self.crange = crange        # formulas in k: iteration k executes
        self.cells = cells          # key -> phi info
        self.post = post
        self.init = init
        self.closed = {}
        self.busy = set()
        self.uid = next(_rid)
        self.postctx = None

    # ---- scalars
    def at(self, key, it):
        """value of the cell at the start of iteration `it`"""
        cell = self.cells[key]
        kind = cell['kind']
        if kind == 'closed':
            return vsubst(cell['val'], {self.k: it})
        if kind == 'scalar':
            return self.scalar_at(key, it)
        if kind == 'formula':
            return self.formula_at(key, it)
        if kind == 'arr':
            return self.arr_at(key, it)
        if kind == 'abs':
            return self.abs_at(key, it)
        if kind == 'seq':
            return self.seq_at(key, it)
        if kind == 'rec':
            c = self.cells[key]
            return Rec(c['cls'], {f: self.at(key + (('f', f),), it) for f in c['fields']})
        return Opq('loop-carried value')

    def resolve(self, e, skip=()):
        """replace phi atoms by their values at iteration k"""
        def fn(a, na):
            if a.kind == 'phi' and a.args[0] == self.uid:
                key = self.keys[a.args[1]]
                if key in skip:
                    return None
                if key in self.busy:
                    raise Cyclic(key)
                return topoly(self.at(key, P(self.k)))
            if a.kind == 'phiarr' and a.args[0] == self.uid:
                key = self.keys[a.args[1]]
                if key in skip:
                    return None
                if key in self.busy:
                    raise Cyclic(key)
                v = self.at(key, P(self.k))
                return v.f(na[2], na[3]) if isinstance(v, Arr) else opaque('loop array')
            return None
        return subst(e, {}, None, fn)

    def has_phi(self, e):
        return bool(atoms_of(e, lambda a: a.kind in ('phi', 'phiarr') and a.args[0] == self.uid))

    def scalar_post(self, key, skip=()):
        with under(*self.facts()):
            e = self.post[key]
            if isinstance(e, Formula):
                e = topoly(e)
            if not isinstance(e, Poly):
                return opaque('loop-carried %s' % type(e).__name__)
            e = cur().simp(e)
            return cur().simp(self.resolve(e, skip))

    def facts(self):
        return [le(ZERO, P(self.k))] + self.crange

    def scalar_at(self, key, it):
        if key in self.closed:
            return subst(self.closed[key], {self.k: it})
        if key in self.busy:
            raise Cyclic(key)
        phi = self.cells[key]['phi']
        self.busy.add(key)
        try:
            e = self.scalar_post(key, (key,))
            init = topoly(self.init[key])
            k = self.k
            phia = list(phi.m)[0][0][0]
            r = None
            if phia not in set(atoms_of(e, lambda a: a is phia)):
                if e == init:
                    r = init
                else:
                    prev = subst(e, {k: P(k) - 1})
                    r = ite(eq(P(k), ZERO), init, prev)
            else:
                d = e - phi
                if not atoms_of(d, lambda a: a is phia):
                    j = fresh_bv('j')
                    r = init + ksum(j, P(k), subst(d, {k: P(j)}), [lt(P(j), P(k))])
                else:
                    l = linear_in(e, phia)
                    if l is not None and not l[1].m and not atoms_of(l[0], lambda a: a is phia):
                        j = fresh_bv('j')
                        r = init * pprod(j, P(k), subst(l[0], {k: P(j)}))
                    elif len(e.m) == 1 and list(e.m)[0][0][0].kind == 'ite' and e.m[list(e.m)[0]] == 1:
                        r = self.cond_last(e, phi, phia, init)
            if r is None:
                r = Poly.at(atom('opaque', 'recurrence %d.%s' % (self.uid, key), P(k)))
                self.recs_scalar(key, e, phia)
        except Cyclic:
            if key in self.busy and len(self.busy) == 1:
                r = Poly.at(atom('opaque', 'recurrence %d.%s' % (self.uid, key), P(self.k)))
            else:
                raise
        finally:
            self.busy.discard(key)
        self.closed[key] = r
        return subst(r, {self.k: it})

    def recs_scalar(self, key, e, phia):
        pass

    def cond_last(self, e, phi, phia, init):
        """phi' = ite(c, w, phi): value of the last iteration where c held"""
        a = list(e.m)[0][0][0]
        c, x, y = a.args
        if y == phi:
            w, cond = x, c
        elif x == phi:
            w, cond = y, f_not(c)
        else:
            return None
        if atoms_of(w, lambda z: z is phia) or atoms_of(cond, lambda z: z is phia):
            return None
        k = self.k
        if k not in cond.fv and k not in w.fv:
            return ite(f_and(cond, lt(ZERO, P(k))), w, init)
        j = fresh_bv('j')
        s = solve_k(cond, k)
        if s is not None:
            ks, res = s
            return ite(f_and(subst(cond, {k: ks}), res, le(ZERO, ks), lt(ks, P(k))), subst(w, {k: ks}), init)
        return None

    def formula_at(self, key, it):
        if key in self.closed:
            return subst(self.closed[key], {self.k: it})
        phi = self.cells[key]['phi']
        e = self.post[key]
        r = None
        if isinstance(e, Formula):
            with under(*self.facts()):
                e = self.resolve(cur().simp(e), (key,))
            k = self.k
            init = self.init[key]
            if not has_formula(e, phi):
                r = f_or(f_and(eq(P(k), ZERO), init), f_and(lt(ZERO, P(k)), subst(e, {k: P(k) - 1})))
            else:
                et = subst(e, {}, {phi: TRUE, f_not(phi): FALSE})
                ef = subst(e, {}, {phi: FALSE, f_not(phi): TRUE})
                j = fresh_bv('j')
                if et.k == 'true':     # phi or c
                    r = f_or(init, fexists(j, P(k), subst(ef, {k: P(j)})))
                elif ef.k == 'false':  # phi and c
                    r = f_and(init, f_not(fexists(j, P(k), f_not(subst(et, {k: P(j)})))))
        if r is None:
            r = bopaque('loop-carried boolean')
        self.closed[key] = r
        return subst(r, {self.k: it})

    # ---- arrays
    def arr_at(self, key, it):
        init = self.init[key]
        if not isinstance(init, Arr):
            return Opq('array')
        post = self.post[key]
        if not isinstance(post, Arr):
            return Opq('array')
        rows, cols = post.rows, post.cols
        if rows != init.rows or cols != init.cols:
            if atoms_of((rows, cols), lambda a: a.kind in ('phi', 'phiarr')) or self.k in rows.fv or self.k in cols.fv:
                return self.grow_at(key, it, init, post)
            rows = ite(eq(P(it), ZERO), init.rows, rows)
            cols = ite(eq(P(it), ZERO), init.cols, cols)
        it = P(it)
        memo = {}

        def f(i, j):
            mk = (i, j, id(CTX[0]))
            if mk not in memo:
                memo[mk] = (CTX[0], self.elem_at(key, i, j, it))
            return memo[mk][1]
        return Arr(rows, cols, f, init.arr)

    def grow_at(self, key, it, init, post):
        """vector grown by push_back of a scalar in every iteration"""
        k = self.k
        ra = atoms_of(post.rows, lambda a: a.kind == 'phi')
        d = post.rows - init.rows
        return Opq('growing array')

    def elem_at(self, key, I, J, it):
        init = self.init[key]
        k = self.k
        if it == ZERO:
            return init.f(I, J)

        def run(I, J):
            return self.post_elem(key, I, J)
        # keep query variables apart from the iteration variable
        if k in I.fv or k in J.fv or True:
            r = fresh_bv('r')
            ren, back = {k: P(r)}, {r: P(k)}
            I2, J2, it2 = subst(I, ren), subst(J, ren), subst(it, ren)
            fs = [subst(f, ren) for f in CTX[0].facts if k in f.fv]
            keep = [f for f in CTX[0].facts if k not in f.fv]
            old = CTX[0]
            CTX[0] = Ctx(keep + fs)
            try:
                res = self.elem_at2(key, I2, J2, it2)
            finally:
                CTX[0] = old
            return subst(res, back)

    def elem_at2(self, key, I, J, it):
        init = self.init[key]
        k = self.k
        cid = self.cells[key]['id']
        here = Poly.at(atom('phiarr', self.uid, cid, I, J))
        herea = list(here.m)[0][0][0]
        with under(*(self.facts() + [lt(P(k), it)])):
            e = cur().simp(self.post[key].f(I, J))
            if e == here:
                return init.f(I, J)
            self.busy.add(key)
            try:
                e = cur().simp(self.resolve(e, (key,)))
            except Cyclic:
                return Poly.at(atom('opaque', 'mutual recurrence %d' % self.uid, I, J, it))
            finally:
                self.busy.discard(key)
        if e == here:
            return init.f(I, J)
        own = lambda x: atoms_of(x, lambda a: a.kind == 'phiarr' and a.args[0] == self.uid and a.args[1] == cid)
        d = e - here
        if not own(d):
            return init.f(I, J) + self.sum_over(d, it)
        oe = own(e)
        lv = self.tree(e, here)
        if oe and all(a is herea for a in oe) and not (len(lv) > 1 and all(v == here or not own(v) for c, v in lv)
                                                       and not any(own(c) for c, v in lv)):
            l = linear_in(e, herea)
            j = fresh_bv('j')
            if l is not None and not own(l[0]) and not l[1].m:
                c = subst(l[0], {k: P(j)})
                return init.f(I, J) * pprod(j, it, self.ranged(c, j, it))
            if it == self.n or all(r in (lt(P(k), self.n), le(ZERO, P(k))) for r in self.crange) :
                acc = fresh_acc()
                return pfold(j, acc, it, subst(subst(e, {herea: Poly.at(acc)}), {k: P(j)}), init.f(I, J))
        if k not in e.fv and not own(e):
            return gite(lt(ZERO, it), lambda: e, lambda: init.f(I, J))
        return self.writes(key, e, here, I, J, it)

    def ranged(self, c, j, it):
        """factor c where iteration j runs, 1 elsewhere"""
        return c

    def rng(self, it):
        fin = self.final_it(it)
        return self.crange if fin else [lt(P(self.k), it)] + self.crange

    def final_it(self, it):
        return it == self.n

    def sum_over(self, d, it):
        k = self.k
        j = fresh_bv('j')
        return ksum(j, it, subst(d, {k: P(j)}), [subst(r, {k: P(j)}) for r in self.rng(it)])

    def tree(self, e, here):
        """leaves of a pure ite tree: list of (cond, value)"""
        if len(e.m) == 1:
            (mo, c), = e.m.items()
            if c == 1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind == 'ite':
                a = mo[0][0]
                out = []
                for cc, v in self.tree(a.args[1], here):
                    out.append((f_and(a.args[0], cc), v))
                for cc, v in self.tree(a.args[2], here):
                    out.append((f_and(f_not(a.args[0]), cc), v))
                return out
        return [(TRUE, e)]

    def writes(self, key, e, here, I, J, it):
        init = self.init[key]
        k = self.k
        cid = self.cells[key]['id']
        leaves = [(c, v) for c, v in self.tree(e, here) if v != here]
        cases, solved = [], []
        for c, v in leaves:
            alts = c.args if c.k == 'or' else (c,)
            for cc in alts:
                if k in cc.fv:
                    s = solve_k(cc, k)
                    if s is None:
                        return Poly.at(atom('opaque', 'loop writes %d' % self.uid, I, J, it))
                    ks, res = s
                    if k in ks.fv:
                        return Poly.at(atom('opaque', 'loop writes %d' % self.uid, I, J, it))
                    solved.append(True)
                else:
                    solved.append(False)
                    ks, res = it - 1, TRUE
                valid = f_and(subst(cc, {k: ks}), res, le(ZERO, ks), *[subst(r, {k: ks}) for r in self.rng(it)])
                cases.append((cur().simp(valid), ks, v))

        def value(v, ks):
            if atoms_of(v, lambda a: a.kind == 'phiarr' and a.args[0] == self.uid and a.args[1] == cid):
                if len(cases) == 1 and solved[0]:
                    # the element is written once, so it is read before that write
                    w = cur().simp(subst(v, {k: ks}))
                    mine = atoms_of(w, lambda a: a.kind == 'phiarr' and a.args[0] == self.uid and a.args[1] == cid)
                    if all(dec(eq(P(a.args[2]), I)) is True and dec(eq(P(a.args[3]), J)) is True for a in mine):
                        return cur().simp(subst(w, {a: init.f(I, J) for a in mine}))
                rid = (self.uid, cid)
                RECS[rid] = (self, key)
                return Poly.at(atom('rec', self.uid, cid, I, J))
            return cur().simp(subst(v, {k: ks}))

        def go(cs):
            if not cs:
                return init.f(I, J)
            valid, ks, v = cs[0]
            rest = cs[1:]
            cond = valid
            for v2, k2, _ in rest:
                if dec(f_and(valid, v2)) is False or contradict(valid, v2):
                    continue
                cond = f_and(cond, f_or(f_not(v2), le(k2, ks)))
            return gite(cur().simp(cond), lambda: value(v, ks), lambda: go(rest))
        return go(cases)

    def unfold(self, key, I, J):
        """defining equation of a recurrence element written in this loop:
        value with references to earlier elements as rec/initial values"""
        k = self.k
        cid = self.cells[key]['id']
        here = Poly.at(atom('phiarr', self.uid, cid, I, J))
        with under(*self.facts()):
            e = cur().simp(self.post[key].f(I, J))
            self.busy.add(key)
            try:
                e = cur().simp(self.resolve(e, (key,)))
            finally:
                self.busy.discard(key)
        for c, v in self.tree(e, here):
            if v == here:
                continue
            if k in c.fv:
                s = solve_k(c, k)
                if s is None:
                    return None
                ks, res = s
            else:
                continue
            valid = f_and(subst(c, {k: ks}), res, le(ZERO, ks), *[subst(r, {k: ks}) for r in self.crange])
            if dec(valid) is False:
                continue
            if dec(valid) is not True:
                return None
            w = subst(v, {k: ks})

            def fn(a, na):
                if a.kind == 'phiarr' and a.args[0] == self.uid and a.args[1] == cid:
                    return self.elem_at(key, na[2], na[3], ks)
                return None
            return cur().simp(subst(w, {}, None, fn))
        return None

    # ---- abstract objects
    def abs_at(self, key, it):
        init, post = self.init[key], self.post[key]
        cell = self.cells[key]
        phi = cell['phi']
        a, b = cell['strip'](init), cell['strip'](post)
        if b is None or a is None:
            return Opq('loop-carried object')
        if not isinstance(b, Abs):
            return Opq('loop-carried object')
        ck = a.key if isinstance(a, Abs) else objkey(a)
        pk = phi.key
        if b.key == pk:
            return init
        k0 = b.key
        if len(k0.m) == 1:
            (mo, c), = k0.m.items()
            at = mo[0][0]
            if at.kind == 'der' and at.args[0] == pk and self.k not in at.args[1].fv and not self.has_phi(at.args[1]):
                return cell['wrap'](Abs(b.kind, der(ck, at.args[1] * P(it))))
        return Opq('loop-carried object')

    # ---- sequences
    def seq_at(self, key, it):
        init, post = self.init[key], self.post[key]
        it = P(it)
        if not isinstance(post, Seq):
            return Opq('loop-carried sequence')
        cid = self.cells[key]['id']
        idx = [i for i, s in enumerate(post.segs) if s == ('phi', self.uid, cid)]
        if len(idx) != 1:
            return Opq('loop-carried sequence')
        pre, suf = post.segs[:idx[0]], post.segs[idx[0] + 1:]
        k = self.k

        def conv(seg, rev):
            def at_k(i):
                return (it - 1 - i) if rev else i
            if seg[0] == 'one':
                v = seg[1]

                def tmpl(i):
                    return vsubst(self.rv(v), {k: at_k(i)})
                return ('gen', it, tmpl, None)
            if seg[0] == 'gen' and seg[1] == ONE:
                tm, g = seg[2], seg[3]

                def tmpl2(i):
                    return vsubst(self.rv(tm(ZERO)), {k: at_k(i)})

                def gd(i):
                    return subst(self.rv(g(ZERO)), {k: at_k(i)})
                return ('gen', it, tmpl2, gd if g else None)
            raise Unsupported('loop appends a generic segment')
        if len(pre) > 1 or len(suf) > 1:
            return Opq('loop appends several elements')
        return Seq(tuple(conv(s, True) for s in pre) + init.segs + tuple(conv(s, False) for s in suf))

    def rv(self, v):
        """resolve phis in a value"""
        if isinstance(v, (Poly, Formula)):
            return self.resolve(v)
        if isinstance(v, Arr):
            f = v.f
            return Arr(self.resolve(v.rows), self.resolve(v.cols), lambda i, j: self.resolve_h(f, i, j), v.arr)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.rv(x) for k, x in v.d.items()})
        if isinstance(v, Box):
            return Box(self.rv(v.v)) if v.v is not None else v
        if isinstance(v, Abs):
            return Abs(v.kind, self.resolve(v.key), v.moved)
        if isinstance(v, Seq):
            def sg(s):
                if s[0] == 'one':
                    return ('one', self.rv(s[1]))
                if s[0] == 'gen':
                    t, g = s[2], s[3]
                    return ('gen', self.resolve(s[1]), lambda i: self.rv(t(i)), (lambda i: self.resolve(g(i))) if g else None)
                if s[0] == 'phi' and s[1] == self.uid:
                    raise Unsupported('nested loop-carried sequence')
                return s
            return Seq([sg(s) for s in v.segs])
        if isinstance(v, Sel):
            return Sel(self.resolve(v.c), self.rv(v.a), self.rv(v.b))
        if isinstance(v, It):
            return It(v.lv, v.seg, self.resolve(v.off), v.rev)
        return v

    def resolve_h(self, f, i, j):
        k = self.k
        if k in i.fv or k in j.fv:
            r = fresh_bv('r')
            fs = [subst(g, {k: P(r)}) for g in CTX[0].facts if k in g.fv]
            with under(*fs):
                e = self.resolve(f(subst(i, {k: P(r)}), subst(j, {k: P(r)})))
            # note: body values refer to iteration k, the query to r
            return subst(e, {r: P(k)})
        return self.resolve(f(i, j))


def contradict(a, b):
    ca = set(conjuncts(a))
    return any(f_not(x) in ca for x in conjuncts(b))


def has_formula(f, g):
    if f == g:
        return True
    if f.k in ('and', 'or', 'not'):
        return any(has_formula(x, g) for x in f.args)
    return False


class Cyclic(Exception):
    pass


class Loops(Lib):
    def leaves(self, root, v, path=()):
        """flatten a value into leaf cells"""
        if isinstance(v, Rec) and v.d and not v.cls.startswith('Eigen::Sparse'):
            for k, x in v.d.items():
                yield from self.leaves(root, x, path + (('f', k),))
        else:
            yield (root,) + path, v

    def cells_of(self):
        out = {}
        for r, v in self.store.items():
            for key, x in self.leaves(r, v):
                out[key] = x
        return out

    def changed(self, base, now):
        ch = []
        for key, v in base.items():
            if key in now:
                if not same(v, now[key]):
                    ch.append(key)
            else:
                # structure changed: the root was replaced by a different shape
                if key[0] in self.store:
                    ch.append(key)
        return ch

    # ---------------------------------------------------------- statements
    def s_for(self, n):
        if n.get('init'):
            self.exec(n['init'])
        cond, inc = n.get('c') or n.get('cond'), n.get('inc')
        if self.is_iter_cond(cond):
            self.iter_loop(cond, inc, n['body'], n)
        else:
            self.counter_loop(cond, inc, n['body'], n)

    def s_while(self, n):
        cond = n.get('c') or n.get('cond')
        if self.is_iter_cond(cond):
            self.iter_loop(cond, None, n['body'], n)
        else:
            self.counter_loop(cond, None, n['body'], n)

    def s_do(self, n):
        self.fr.loops.append({'breaks': [], 'continues': []})
        cond = n.get('c') or n.get('cond')
        const = self.strip(cond)
        if const.get('k') in ('bool', 'int') and str(const.get('v')) in ('False', '0', 'false'):
            self.exec(n['body'])
            info = self.fr.loops.pop()
            self.rejoin(info['breaks'] + info['continues'])
            return
        self.fr.loops.pop()
        self.havoc_loop(cond, None, n['body'], n)

    def strip(self, n):
        while n.get('k') in ('icast', 'cast'):
            n = n['e']
        return n

    def is_iter_cond(self, c):
        if c is None:
            return False
        c = self.strip(c)
        if c.get('k') == 'opcall' and c.get('op') in ('!=', '==', '<'):
            t = self.prog.ty(c['a'][0].get('t'))
            s = t['c']
            return any(x in s for x in ('_List_', 'iterator', '_Node_'))
        if c.get('k') == 'bin' and c.get('op') == '&&':
            return self.is_iter_cond(c['a']) or self.is_iter_cond(c['b'])
        return False

    def s_forrange(self, n):
        x = self.ev(n['range'])
        lv = self.as_lv(x)
        v = self.load(lv)
        var = n['var']
        t = self.prog.ty(var['t'])

        def bindto(el):
            if t.get('ref') or t.get('rref'):
                self.fr.env[var['id']] = el
            else:
                self.fr.env[var['id']] = self.temp(self.load(el), 'l')
            self.bind(var, self.fr.env[var['id']])
        if isinstance(v, Arr):
            self.generic_loop(P(v.rows * v.cols), lambda k: bindto(self.elem(lv, v, [k])), n['body'], n)
            return
        if not isinstance(v, Seq):
            if isinstance(v, Opq):
                self.havoc_loop(None, None, n['body'], n, pre=lambda: self.fr.env.__setitem__(var['id'], self.temp(Opq('element'))))
                return
            raise Unsupported('range for over %r' % (v,))
        i = 0
        info = {'breaks': [], 'continues': []}
        nsegs = len(v.segs)
        for i in range(nsegs):
            if not self.live:
                break
            s = v.segs[i]
            if s[0] == 'one':
                self.fr.loops.append({'breaks': info['breaks'], 'continues': []})
                bindto(lv.sub(('el', i, ZERO)))
                self.exec(n['body'])
                self.rejoin_if(self.fr.loops.pop()['continues'])
            elif s[0] == 'gen':
                if s[3] is not None:
                    g = s[3]
                    self.generic_loop(s[1], lambda k, i=i: bindto(lv.sub(('el', i, k))), n['body'], n, info, guard=g)
                else:
                    self.generic_loop(s[1], lambda k, i=i: bindto(lv.sub(('el', i, k))), n['body'], n, info)
            else:
                raise Unsupported('range for over a loop-carried sequence')
        self.rejoin_if(info['breaks'])

    def rejoin_if(self, snaps):
        if snaps or not self.live:
            self.rejoin(snaps)

    def iterate_range(self, b, e, fn, n):
        for (si, s, off, cnt) in self.positions(b, e):
            if s[0] == 'one':
                fn(self.it_lv(It(b.lv, si, ZERO, b.rev)))
            else:
                self.generic_loop(cnt, lambda k, si=si, off=off: None, None, n,
                                  call=lambda k, si=si, off=off: fn(self.it_lv(It(b.lv, si, off + k, b.rev))))

    def iter_loop(self, cond, inc, body, n):
        c = self.strip(cond)
        # the iterator variable and the end expression
        info = {'breaks': [], 'continues': []}
        guard = 0
        while self.live:
            guard += 1
            if guard > 40:
                raise Unsupported('iterator loop does not converge')
            cv = tobool(self.val(cond))
            itlv, end = self.find_iter(c)
            it = self.load(itlv)
            if isinstance(it, Sel) or not isinstance(it, It):
                raise Unsupported('undetermined iterator in a loop')
            v = self.load(it.lv)
            if isinstance(v, Arr):
                raise Unsupported('iterator loop over an array')
            segs = v.segs if not it.rev else v.segs[::-1]
            if it.seg < len(segs) and segs[it.seg][0] == 'gen' and it.off == ZERO and dec(cv) is not False:
                s = segs[it.seg]
                endv = self.load(end)
                same_seg = isinstance(endv, It) and endv.lv == it.lv and endv.seg == it.seg
                cnt = endv.off if same_seg else s[1]
                if s[3] is not None:
                    raise Unsupported('iterator loop over a guarded segment')
                seg = it.seg
                nxt = It(it.lv, seg, endv.off, it.rev) if same_seg else It(it.lv, seg + 1, ZERO, it.rev)
                self.generic_loop(cnt, lambda k: self.write(itlv, It(it.lv, seg, k, it.rev)), body, n, info,
                                  skip=(itlv.root,) + itlv.path, inc=inc)
                if not self.live:
                    break
                self.write(itlv, nxt)
                if same_seg:
                    break
                continue
            d = dec(cv)
            if d is False:
                break
            if d is None:
                raise Unsupported('undecided iterator condition')
            self.fr.loops.append({'breaks': info['breaks'], 'continues': []})
            self.exec(body)
            self.rejoin_if(self.fr.loops.pop()['continues'])
            if self.live and inc is not None:
                self.ev(inc)
        self.rejoin_if(info['breaks'])

    def find_iter(self, c):
        if c.get('k') == 'bin':
            for x in (c['a'], c['b']):
                if self.is_iter_cond(x):
                    return self.find_iter(self.strip(x))
        a, b = self.ev(c['a'][0]), self.ev(c['a'][1])
        if isinstance(a, LV) and isinstance(self.load(a), (It, Sel)) and a.root[0] == 'l':
            return a, b
        if isinstance(b, LV):
            return b, a
        return a, b

    def generic_loop(self, cnt, setup, body, n, info=None, skip=None, guard=None, call=None, inc=None):
        """loop over k in [0,cnt) with setup(k) binding the element"""
        cnt = P(cnt)
        if dec(eq(cnt, ZERO)) is True:
            return
        k = fresh_bv('k')

        def step():
            setup(P(k))
            if guard is not None:
                self.split(guard(P(k)), lambda: self.exec(body), lambda: None)
            elif call is not None:
                call(P(k))
            else:
                self.exec(body)
        self.summarise(k, cnt, [lt(P(k), cnt)], step, n, info, skip)

    def counter_loop(self, cond, inc, body, n):
        if cond is not None:
            c0 = self.cond_now(cond)
            if c0 is not None and dec(c0) is False:
                return
        if cond is not None and self.unroll(cond, inc, body, n):
            return
        if cond is not None:
            # while (counter and test) body is while (counter) { if (not test) break; body }
            c = self.strip(cond)
            if c.get('k') == 'bin' and c.get('op') == '&&':
                for x, y in ((c['a'], c['b']), (c['b'], c['a'])):
                    if self.const_cond(x) is not None:
                        b2 = {'k': 'guarded', 'c': y, 'body': body, 'l': n.get('l')}
                        if self.unroll(x, inc, b2, n):
                            return
                        break
        k = fresh_bv('k')

        def step():
            self.exec(body)

        def incf():
            if inc is not None:
                self.ev(inc)
        self.summarise(k, None, None, step, n, None, None, cond=cond, inc=incf)

    def s_guarded(self, n):
        c = tobool(self.val(n['c']))
        self.split(c, lambda: self.exec(n['body']), lambda: self.s_break(n))

    UNROLL = 8

    def const_cond(self, cond):
        c = self.strip(cond)
        if c.get('k') != 'bin' or c.get('op') not in ('<', '<=', '>', '>=', '!='):
            return None
        s0 = self.snap()
        try:
            a, b = self.val(c['a']), self.val(c['b'])
        except (Dead, Unsupported):
            return None
        finally:
            self.restore(s0)
        if not all(isinstance(x, Poly) and x.const() is not None for x in (a, b)):
            return None
        a, b = a.const(), b.const()
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '!=': a != b}[c['op']], abs(b - a)

    def unroll(self, cond, inc, body, n):
        """a loop whose condition compares constants and that ends within
        UNROLL iterations is executed iteration by iteration"""
        c = self.const_cond(cond)
        if c is None or c[1] > self.UNROLL or not c[0]:
            return False
        s0 = self.snap()
        nthrow, nret = len(self.throws), len(self.fr.returns)
        info = {'breaks': [], 'continues': []}
        for _ in range(self.UNROLL + 1):
            c = self.const_cond(cond)
            if c is None:
                break
            if not c[0]:
                self.rejoin_if(info['breaks'])
                return True
            lp = {'breaks': info['breaks'], 'continues': []}
            self.fr.loops.append(lp)
            try:
                self.exec(body)
            finally:
                self.fr.loops.pop()
            self.rejoin_if(lp['continues'])
            if not self.live:
                self.rejoin_if(info['breaks'])
                return True
            if inc is not None:
                self.ev(inc)
        self.restore(s0)
        del self.throws[nthrow:]
        del self.fr.returns[nret:]
        return False

    def cond_now(self, cond):
        s0 = self.snap()
        try:
            return tobool(self.val(cond))
        except Dead:
            return None
        finally:
            th = self.live
            self.restore(s0)

    def havoc_loop(self, cond, inc, body, n, pre=None):
        """no closed form: forget everything the loop may modify"""
        base = self.cells_of()
        s0 = self.snap()
        mod = set()
        nthrow = len(self.throws)
        nret = len(self.fr.returns)
        for _ in range(6):
            self.restore(s0)
            for key in mod:
                self.write(LV(key[0], key[1:]), self.havoc_of(base[key]))
            self.fr.loops.append({'breaks': [], 'continues': []})
            if pre:
                pre()
            try:
                if cond is not None:
                    self.fact(tobool(self.val(cond)))
                self.exec(body)
                if inc is not None and self.live:
                    self.ev(inc)
            except Dead:
                pass
            info = self.fr.loops.pop()
            states = [s for s in info['breaks'] + info['continues']]
            if self.live:
                states.append(self.snap())
            new = set(mod)
            for s in states:
                self.store = dict(s[0])
                for key in self.changed(base, self.cells_of()):
                    new.add(key)
            if new == mod:
                break
            mod = new
            del self.throws[nthrow:]
            del self.fr.returns[nret:]
        self.restore(s0)
        self.note(n, 'loop without closed form')
        for key in mod:
            self.write(LV(key[0], key[1:]), self.havoc_of(base[key]))

    # ---------------------------------------------------------- summary
    def summarise(self, k, cnt, crange, step, n, info, skip, cond=None, inc=None):
        s0 = self.snap()
        base = self.cells_of()
        loop = Loop(self, k, cnt, crange, {}, {}, {})
        loop.keys = []
        phis = {}
        nthrow, nret = len(self.throws), len(self.fr.returns)
        closed = {}
        ok = False
        for rnd in range(14):
            self.restore(s0)
            self.live = True
            del self.throws[nthrow:]
            del self.fr.returns[nret:]
            for key, phi in phis.items():
                self.write(LV(key[0], key[1:]), closed[key] if key in closed else phi['val'])
            facts = [le(ZERO, P(k))]
            for f in facts:
                self.fact(f)
            cform = None
            if cond is not None:
                cform = tobool(self.val(cond))
                self.assume(cform)
            elif crange is not None:
                for f in crange:
                    self.assume(f)
            if not self.live:
                self.restore(s0)
                return
            pre_pc = self.pc
            linfo = {'breaks': [], 'continues': []}
            self.fr.loops.append(linfo)
            try:
                step()
            except Dead:
                self.live = False
            self.fr.loops.pop()
            if linfo['continues']:
                self.rejoin(linfo['continues'])
            if self.live and inc is not None:
                try:
                    inc()
                except Dead:
                    self.live = False
            now = self.cells_of() if self.live else {}
            breaks = linfo['breaks']
            rets = self.fr.returns[nret:]
            mods = set()
            if self.live:
                mods |= set(self.changed_from(base, phis, closed, now))
            for s in breaks:
                st = self.store
                self.store = dict(s[0])
                mods |= set(self.changed_from(base, phis, closed, self.cells_of()))
                self.store = st
            if skip is not None:
                mods.discard(skip)
            newk = [m for m in mods if m not in phis]
            if newk:
                for key in newk:
                    phis[key] = self.make_phi(loop, key, base[key])
                continue
            # closed forms for affine counters
            prog = False
            if self.live:
                for key, phi in phis.items():
                    if key in closed or phi['kind'] != 'scalar':
                        continue
                    v = now.get(key)
                    if isinstance(v, Poly):
                        d = v - phi['phi']
                        if not loop.has_phi(d) and k not in d.fv and not d.fv - T.fvs(phi['phi']) - self.outer_fv(base):
                            closed[key] = topoly(base[key]) + d * P(k)
                            prog = True
                        elif not loop.has_phi(d) and k not in d.fv:
                            closed[key] = topoly(base[key]) + d * P(k)
                            prog = True
                        elif v.is_const() and False:
                            pass
            if prog:
                continue
            ok = True
            break
        if not ok:
            raise Unsupported('loop at %s does not stabilise' % self.where(n))
        post_live = self.live
        postsnap = self.snap()
        throws = self.throws[nthrow:]
        del self.throws[nthrow:]
        del self.fr.returns[nret:]
        # trip count
        if cond is not None:
            for key in closed:
                pass
            r = self.trip(cform, k, loop)
            if r is None:
                self.restore(s0)
                return self.loop_fallback(loop, phis, base, s0, n, throws, rets)
            cnt, cr = r
            loop.n, loop.crange = cnt, cr
        for key, phi in phis.items():
            loop.init[key] = base[key]
            loop.post[key] = now.get(key) if post_live else base[key]
            if key in closed:
                loop.cells[key] = {'kind': 'closed', 'val': closed[key], 'id': phi['id']}
            else:
                loop.cells[key] = phi
        # early exits
        exits = []
        plen = len(pre_pc)

        def rel(pc):
            i = 0
            while i < len(pc) and i < plen and pc[i] == pre_pc[i]:
                i += 1
            return f_and(*pc[i:])
        self.restore(s0)
        CTXin = CTX[0]
        nn = loop.n
        if breaks or rets:
            conds = []
            with under(*loop.facts()):
                for s in breaks:
                    conds.append(('break', self.solved(loop, rel(s[1])), s, None))
                for v, s in rets:
                    conds.append(('return', self.solved(loop, rel(s[1])), s, v))
            if any(c is None for _, c, _, _ in conds):
                raise Unsupported('loop exit condition')
            E = f_or(*[c for _, c, _, _ in conds])
        else:
            E = FALSE
        for pc, et, wh, fs in throws:
            with under(*loop.facts()):
                c = self.solved(loop, rel(pc))
            ex = fexists(k, nn, c) if c is not None else bopaque('loop throw')
            self.throws.append((self.pc + (ex,), et, wh, fs))
            self.assume(f_not(ex))
            self.quant_fact(loop, f_not(c)) if c is not None else None
        if E.k == 'false':
            if not post_live:
                # every iteration throws
                self.assume(eq(nn, ZERO))
                return
            self.apply(loop, phis, nn)
            return
        ex = fexists(k, nn, E)
        F = pfirst(k, nn, E)
        after = []

        sA = self.snap()
        # exit happens at iteration F
        self.assume(ex)
        self.fact(le(ZERO, F))
        for cf in loop.crange:
            self.fact(subst(cf, {k: F}))
        self.fact(subst(E, {k: F}))
        # minimality, instantiated for the previous iteration
        notE = f_not(E)
        self.fact(f_or(eq(F, ZERO), subst(notE, {k: F - 1})))
        sx = self.snap()
        for idx, (kind, c, s, v) in enumerate(conds):
            self.restore(sx)
            if len(conds) > 1:
                self.assume(subst(c, {k: F}))
            self.apply_exit(loop, phis, base, s, F)
            if kind == 'break':
                after.append(self.snap())
            else:
                vv = self.exit_value(loop, v, F)
                self.fr.returns.append((vv, self.snap()))
        self.restore(sA)
        self.assume(f_not(ex))
        if post_live:
            self.apply(loop, phis, nn)
        else:
            self.apply(loop, phis, ZERO)
        if after:
            if info is not None and False:
                info['breaks'] += after
            self.rejoin(after)

    def quant_fact(self, loop, f):
        pass

    def outer_fv(self, base):
        return frozenset()

    def solved(self, loop, f):
        try:
            return cur().simp(loop.resolve(f))
        except (Cyclic, Unsupported):
            return None

    def exit_value(self, loop, v, F):
        if v is None:
            return None
        if isinstance(v, LV):
            return LV(v.root, tuple(self.sub_path(loop, p, F) for p in v.path))
        return vsubst(loop.rv(v), {loop.k: F})

    def sub_path(self, loop, p, F):
        if isinstance(p, tuple):
            return tuple(subst(loop.resolve(x), {loop.k: F}) if isinstance(x, Poly) else x for x in p)
        raise Unsupported('reference to a view leaves the loop')

    def apply_exit(self, loop, phis, base, s, F):
        st = dict(s[0])
        keep = self.store
        self.store = st
        now = self.cells_of()
        self.store = keep
        for key in phis:
            if key in now:
                v = now[key]
                try:
                    nv = vsubst(loop.rv(v), {loop.k: F})
                except Cyclic:
                    nv = self.havoc_of(v)
                self.write(LV(key[0], key[1:]), nv)

    def changed_from(self, base, phis, closed, now):
        ch = []
        for key, v in base.items():
            ref = v
            if key in phis:
                ref = closed[key] if key in closed else phis[key]['val']
            if key in now:
                if not same(ref, now[key]):
                    ch.append(key)
            elif key[0] in self.store:
                raise Unsupported('loop changes the shape of %r' % (key,))
        return ch

    def make_phi(self, loop, key, v):
        cid = len(loop.keys)
        loop.keys.append(key)
        if isinstance(v, Poly):
            a = Poly.at(atom('phi', loop.uid, cid, sort='int' if is_int(v) else 'real'))
            return {'kind': 'scalar', 'phi': a, 'val': a, 'id': cid}
        if isinstance(v, Formula):
            a = batom('phi', loop.uid, cid)
            return {'kind': 'formula', 'phi': a, 'val': a, 'id': cid}
        if isinstance(v, Arr):
            u = loop.uid
            return {'kind': 'arr', 'id': cid,
                    'val': Arr(v.rows, v.cols, lambda i, j: Poly.at(atom('phiarr', u, cid, i, j)), v.arr)}
        if isinstance(v, Seq):
            return {'kind': 'seq', 'id': cid, 'val': Seq([('phi', loop.uid, cid)])}
        if isinstance(v, Ptr) and v.lv is not None:
            o = self.load(v.lv)
            kind = o.kind if isinstance(o, Abs) else self.kind_of(o)
            if kind:
                ph = Abs(kind, Poly.at(atom('phifn', loop.uid, cid)))
                root = self.temp(ph, 'heap')
                self.phiroots = getattr(self, 'phiroots', {})

                def strip(x, self=self):
                    if isinstance(x, Ptr) and x.lv is not None:
                        if x.lv.root in self.store:
                            return self.load(x.lv)
                        return loop.heap.get(x.lv.root)
                    return None
                return {'kind': 'abs', 'id': cid, 'phi': ph, 'val': Ptr(root), 'strip': strip, 'rootval': (root, ph),
                        'wrap': lambda a: Ptr(self.temp(a, 'heap'))}
        if isinstance(v, Box) and v.v is not None:
            kind = v.v.kind if isinstance(v.v, Abs) else self.kind_of(v.v)
            if kind:
                ph = Abs(kind, Poly.at(atom('phifn', loop.uid, cid)))
                return {'kind': 'abs', 'id': cid, 'phi': ph, 'val': Box(ph), 'strip': lambda x: x.v if isinstance(x, Box) else None,
                        'wrap': lambda a: Box(a)}
        return {'kind': 'opq', 'id': cid, 'val': Opq('loop-carried')}

    def kind_of(self, o):
        if isinstance(o, Rec):
            for k, m in self.absmodels.items():
                if any(o.cls == c or (o.cls in self.prog.records and self.prog.derives(o.cls, c)) for c in m.classes):
                    return k
        return None

    def write(self, lv, val):
        if isinstance(val, Ptr) and val.lv is not None and val.lv.root not in self.store:
            for r in getattr(self, 'phiheap', {}):
                pass
        super().write(lv, val)

    def apply(self, loop, phis, it):
        loop.heap = {}
        vals = {}
        for key in phis:
            try:
                vals[key] = loop.at(key, it)
            except Cyclic:
                vals[key] = self.havoc_of(loop.init[key])
            except Unsupported as e:
                self.log.append('loop value: %s' % e)
                vals[key] = Opq(str(e))
        for key, v in vals.items():
            self.write(LV(key[0], key[1:]), v)

    def loop_fallback(self, loop, phis, base, s0, n, throws, rets):
        self.restore(s0)
        self.note(n, 'loop without closed form')
        if rets:
            raise Unsupported('return from a loop without closed form')
        for t in throws:
            self.throws.append((self.pc + (bopaque('loop'),), t[1], t[2], t[3]))
        for key in phis:
            self.write(LV(key[0], key[1:]), self.havoc_of(base[key]))

    def trip(self, cform, k, loop):
        """iteration count and range facts from the loop condition in k"""
        if cform is None:
            return None
        if loop.has_phi(cform):
            return None
        cs = conjuncts(cform)
        ns = []
        cr = []
        for c in cs:
            if c.k != 'cmp':
                if k in c.fv:
                    return None
                continue
            op, p = c.args
            l = linear_in(p, k)
            if l is None:
                return None
            a, b = l
            if not a.m:
                continue
            if not a.is_const():
                return None
            av = a.const()
            if op == '!=':
                # counts up to the bound
                if av < 0:
                    a, b, av = -a, -b, -av
                ns.append(-b * Poly.c(1 / av))
                cr.append(lt(P(k), ns[-1]))
                continue
            if op == '=':
                return None
            if av < 0:
                return None
            # a k + b < 0 : k < -b/a ;  <= : k < -b/a + 1
            if av == 1:
                m = -b if op == '<' else -b + 1
            else:
                num = -b + (Poly.c(av) - 1) if op == '<' else -b + Poly.c(av)
                q = cur().divide(num, a)
                m = q if q is not None else idiv(num, a)
            ns.append(m)
            cr.append(c)
        if len(ns) != 1:
            return None
        m = ns[0]
        if dec(le(ZERO, m)) is not True:
            if dec(lt(m, ZERO)) is True:
                m = ZERO
            else:
                m = fun('max', ZERO, m, sort='int')
        return m, cr
