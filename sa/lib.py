"""Models of the standard library and Eigen used by the value analysis."""
from interp import *
from interp import Machine as _M
import values as V

EIG = 'Eigen::'


def asum(n, body):
    """sum_{k<n} body(k) with k in range while evaluating"""
    n = P(n)
    if n == ONE:
        return body(ZERO)
    if n.is_const() and n.const() <= 16:
        r = ZERO
        for k in range(int(n.const())):
            r = r + topoly(body(P(k)))
        return r
    bv = fresh_bv('m')
    with under(le(ZERO, P(bv)), lt(P(bv), n)):
        b = body(P(bv))
        return ksum(bv, n, b)


def ksum(bv, n, body):
    """sum with elimination of Kronecker deltas"""
    import loops
    return loops.ksum(bv, n, body, [lt(P(bv), n)])


def matmul(a, b):
    if a.tag == 'diag':
        d = a
        return Arr(a.rows, b.cols, lambda i, j: d.f(i, i) * b.f(i, j))
    if b.tag == 'diag':
        return Arr(a.rows, b.cols, lambda i, j: a.f(i, j) * b.f(j, j))
    inner = a.cols
    if inner != b.rows and inner.is_const() and not b.rows.is_const():
        inner = b.rows if a.cols != ONE else a.cols
    return Arr(a.rows, b.cols, lambda i, j: asum(inner, lambda k: a.f(i, k) * b.f(k, j)))


def cw(f, a, arr=None):
    g = a.f
    return Arr(a.rows, a.cols, lambda i, j: f(g(i, j)), a.arr if arr is None else arr)


def cw2(f, a, b, arr=None):
    fa, fb = a.f, b.f
    # broadcasting of compile-time vectors does not exist in Eigen; sizes agree
    rows = a.rows if not (a.rows.is_const() and not b.rows.is_const()) else b.rows
    cols = a.cols if not (a.cols.is_const() and not b.cols.is_const()) else b.cols
    return Arr(rows, cols, lambda i, j: f(fa(i, j), fb(i, j)), a.arr if arr is None else arr)


SCALAR_FN = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'abs', 'fabs', 'floor', 'ceil', 'acos', 'asin', 'atan', 'sinh',
             'cosh', 'tanh', 'round', 'log10', 'log2', 'cbrt', 'trunc', 'isnan', 'isfinite', 'isinf'}


def sfun(name, x):
    if name in ('abs', 'fabs'):
        x = topoly(x)
        if not x.is_const():
            if dec(le(ZERO, x)) is True:
                return x
            if dec(le(x, ZERO)) is True:
                return -x
        return fabs(x)
    if name == 'sqrt':
        return ppow(x, P(T.Fraction(1, 2)))
    return fun(name, x)


class Lib(_M):
    # ---------------------------------------------------------- iterators
    def it_norm(self, lv, seg, off, rev=False):
        return It(lv, seg, off, rev)

    def seq_of(self, lv):
        v = self.load(lv)
        if isinstance(v, Seq):
            return v
        raise Unsupported('iteration over %r' % (v,))

    def it_lv(self, it):
        v = self.load(it.lv)
        if isinstance(v, Arr):
            return it.lv.sub(('ix', it.off, ZERO))
        s = self.seq_of(it.lv)
        seg = it.seg if not it.rev else len(s.segs) - 1 - it.seg
        off = it.off
        if it.rev and s.segs[seg][0] == 'gen':
            off = s.segs[seg][1] - 1 - off
        return it.lv.sub(('el', seg, off))

    def it_arith(self, op, a, b, n):
        if op == '+' and isinstance(b, It) and is_num(a):
            a, b = b, a
        if op in ('+', '-') and isinstance(a, It) and is_num(b):
            return self.it_step(a, topoly(b) if op == '+' else -topoly(b))
        if isinstance(a, It) and isinstance(b, It) and a.lv == b.lv and isinstance(self.load(a.lv), Arr):
            if op == '-':
                return a.off - b.off
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return self.arith(op, a.off, b.off, {}, {}, n)
        if op in ('==', '!='):
            r = self.std_eq(a, b)
            if r is not None:
                return r if op == '==' else f_not(r)
            return bopaque('iterator comparison')
        if op in ('<', '<=', '>', '>='):
            return bopaque('iterator comparison')
        return Opq('iterator arithmetic')

    def it_step(self, it, d):
        v = self.load(it.lv)
        if isinstance(v, Arr):
            return It(it.lv, 0, it.off + d, it.rev)
        s = self.seq_of(it.lv)
        segs = s.segs if not it.rev else s.segs[::-1]
        seg, off = it.seg, it.off
        if not isinstance(d, int):
            d = P(d)
            if d.is_const():
                d = int(d.const())
            elif seg < len(segs) and segs[seg][0] == 'gen':
                return It(it.lv, seg, off + d, it.rev)
            else:
                raise Unsupported('iterator advanced by a symbolic amount')
        while d > 0:
            if seg >= len(segs):
                raise Unsupported('iterator past the end')
            if segs[seg][0] == 'one':
                seg, off = seg + 1, ZERO
            else:
                off = off + 1
                if dec(eq(off, segs[seg][1])) is True:
                    seg, off = seg + 1, ZERO
            d -= 1
        while d < 0:
            if off == ZERO or (seg < len(segs) and segs[seg][0] == 'one') or seg >= len(segs):
                seg -= 1
                if seg < 0:
                    raise Unsupported('iterator before the beginning')
                off = ZERO if segs[seg][0] == 'one' else segs[seg][1] - 1
            else:
                off = off - 1
            d += 1
        return It(it.lv, seg, off, it.rev)

    def it_eq(self, a, b):
        if a.lv != b.lv:
            return FALSE
        v = self.load(a.lv)
        if isinstance(v, Arr):
            return eq(a.off, b.off)
        if a.seg == b.seg:
            return eq(a.off, b.off)
        if a.seg > b.seg:
            a, b = b, a
        segs = self.seq_of(a.lv).segs
        if a.rev:
            segs = segs[::-1]
        cs = []
        for i in range(a.seg, b.seg):
            s = segs[i]
            if s[0] == 'one':
                return FALSE
            if s[0] == 'gen':
                if s[3] is not None:
                    cs.append(bopaque('guarded segment'))
                elif i == a.seg:
                    cs.append(eq(a.off, s[1]))
                else:
                    cs.append(eq(s[1], ZERO))
            else:
                cs.append(bopaque('phi segment'))
        # an iterator strictly inside a generic segment differs from later ones
        f = f_and(*cs)
        if b.off != ZERO:
            f = FALSE if dec(lt(ZERO, b.off)) else f_and(f, eq(b.off, ZERO))
        return f

    def seq_end(self, lv, rev=False):
        v = self.load(lv)
        if isinstance(v, Arr):
            return It(lv, 0, v.rows * v.cols, rev)
        if not isinstance(v, Seq):
            raise Unsupported('end of %r' % (v,))
        return It(lv, len(v.segs), ZERO, rev)

    def positions(self, b, e):
        """segments between two iterators: list of (segment index, seg, start offset, count or None)"""
        if b.lv != e.lv:
            raise Unsupported('iterators of different containers')
        v = self.load(b.lv)
        if isinstance(v, Arr):
            raise Unsupported('array positions')
        segs = v.segs if not b.rev else v.segs[::-1]
        out = []
        i, off = b.seg, b.off
        while i < e.seg or (i == e.seg and e.off != ZERO and i < len(segs)):
            s = segs[i]
            if s[0] == 'one':
                out.append((i, s, ZERO, None))
            elif s[0] == 'gen':
                hi = s[1] if i < e.seg else e.off
                out.append((i, s, off, hi - off))
            else:
                raise Unsupported('loop-carried segment')
            i, off = i + 1, ZERO
            if i > e.seg:
                break
        return out

    def push(self, lv, v, front=False):
        s = self.load(lv)
        if isinstance(s, Arr):
            if front:
                raise Unsupported('push_front on array')
            x = topoly(v)
            f, n = s.f, s.rows
            self.write(lv, Arr(n + 1, ONE, lambda i, j: gite(eq(i, n), lambda: x, lambda: f(i, j))))
            return
        if not isinstance(s, Seq):
            raise Unsupported('push on %r' % (s,))
        seg = v if isinstance(v, tuple) else ('one', v)
        self.write(lv, Seq((seg,) + s.segs if front else s.segs + (seg,)))

    def map_range(self, b, e, fn, ins, n, move=False):
        """algorithm body for transform/move/copy into an inserter"""
        v = self.load(b.lv)
        if isinstance(v, Arr):
            return self.map_array(b, e, fn, ins, n)
        new = []
        for (i, s, off, cnt) in self.positions(b, e):
            if s[0] == 'one':
                lv = self.it_lv(It(b.lv, i, ZERO, b.rev))
                x = self.copyval(fn(lv))
                if move:
                    self.moved_from(lv, self.load(lv))
                new.append(('one', x))
            else:
                tm, g, o, cn = s[2], s[3], off, cnt
                N = s[1]
                rev = b.rev

                def tmpl(k, tm=tm, o=o, N=N, rev=rev):
                    idx = (N - 1 - (o + k)) if rev else o + k
                    # evaluate on a scratch copy of the element
                    s0 = self.snap()
                    t = self.temp(tm(idx), 'e')
                    r = self.copyval(fn(t))
                    post = self.store.get(t.root)
                    if not self.live:
                        raise Unsupported('element function does not return')
                    self.restore(s0)
                    return r
                gg = None
                if g is not None:
                    gg = (lambda k, g=g, o=o, N=N, rev=rev: g((N - 1 - (o + k)) if rev else o + k))
                new.append(('gen', cn, tmpl, gg))
                if move:
                    si = i if not rev else len(v.segs) - 1 - i
                    cv = self.load(b.lv)
                    self.write(b.lv, Seq(cv.segs[:si] + (('gen', N, lambda k: Box(None), g),) + cv.segs[si + 1:]))
                else:
                    # effects of fn on the element (e.g. moving from it)
                    self.elem_effect(b, i, s, fn, rev, len(v.segs))
        for seg in new:
            if ins.front and seg[0] == 'gen':
                tm, N, g = seg[2], seg[1], seg[3]
                seg = ('gen', N, lambda k, tm=tm, N=N: tm(N - 1 - k),
                       (lambda k, g=g, N=N: g(N - 1 - k)) if g else None)
            self.push(ins.lv, seg, ins.front)

    def elem_effect(self, b, i, s, fn, rev, nseg):
        bv = P(fresh_bv('x'))
        s0 = self.snap()
        pre = s[2](bv)
        t = self.temp(pre, 'e')
        try:
            fn(t)
            post = self.store.get(t.root)
        finally:
            self.restore(s0)
        if post is not None and not same(pre, post):
            si = i if not rev else nseg - 1 - i
            cv = self.load(b.lv)
            at = list(bv.m)[0][0][0]
            self.write(b.lv, Seq(cv.segs[:si] + (('gen', s[1], lambda k: vsubst(post, {at: k}), s[3]),) + cv.segs[si + 1:]))

    def map_array(self, b, e, fn, ins, n):
        raise Unsupported('algorithm over an array')

    # ---------------------------------------------------------- std calls
    def std_call(self, n, q, name):
        a = n['a']
        m = getattr(self, 'f_' + (name or ''), None)
        if m is not None and (q.startswith(('std::', 'Eigen::', '__gnu')) or q == name or q.startswith('::')):
            return m(n, a)
        if name in SCALAR_FN and len(a) == 1:
            v = self.val(a[0])
            if isinstance(v, Arr):
                return cw(lambda x: sfun(name, x), v)
            if isinstance(v, Opq):
                return opaque(name)
            return sfun(name, topoly(v))
        if name in ('printf', 'fflush', 'puts', 'fprintf', 'putchar', 'srand', 'time'):
            for x in a:
                try:
                    self.ev(x)
                except Unsupported:
                    pass
            return Opq('io')
        if q.startswith('Eigen::') and name in ('Zero', 'Ones', 'Constant', 'Identity', 'Random', 'LinSpaced', 'Unit'):
            return self.eig_static(n, name, [self.val(x) for x in a])
        if name == '__assert_fail' or n.get('noreturn'):
            self.live = False
            raise Dead()
        self.note(n, 'call of %s' % (q or name))
        return self.havoc_call(n)

    def f_move(self, n, a):
        if len(a) == 1:
            return self.ev(a[0])
        b, e, ins = [self.val(x) for x in a]
        self.map_range(b, e, lambda lv: self.load(lv), ins, n, move=True)
        return ins

    def f_forward(self, n, a):
        return self.ev(a[0])

    f_as_const = f_forward
    f_move_if_noexcept = f_forward
    f_ref = f_forward
    f_cref = f_forward

    def f_transform(self, n, a):
        if len(a) == 4:
            b, e, ins, fn = [self.val(x) for x in a]
            if isinstance(ins, Ins):
                self.map_range(b, e, lambda lv: self.call_fn(fn, [lv], n), ins, n)
                return ins
        self.note(n, 'transform')
        raise Unsupported('transform form')

    def f_copy(self, n, a):
        b, e, ins = [self.val(x) for x in a]
        if isinstance(ins, Ins):
            self.map_range(b, e, lambda lv: self.load(lv), ins, n)
            return ins
        raise Unsupported('copy form')

    def f_for_each(self, n, a):
        b, e, fn = [self.val(x) for x in a]
        self.iterate_range(b, e, lambda lv: self.call_fn(fn, [lv], n), n)
        return fn

    def f_back_inserter(self, n, a):
        return Ins(self.ev(a[0]), False)

    def f_front_inserter(self, n, a):
        return Ins(self.ev(a[0]), True)

    def f_next(self, n, a):
        it = self.val(a[0])
        d = topoly(self.val(a[1])) if len(a) > 1 else ONE
        return self.lift(it, lambda x: self.it_step(x, d))

    def f_prev(self, n, a):
        it = self.val(a[0])
        d = topoly(self.val(a[1])) if len(a) > 1 else ONE
        return self.lift(it, lambda x: self.it_step(x, -d))

    def f_advance(self, n, a):
        lv = self.ev(a[0])
        self.write(lv, self.it_step(self.load(lv), topoly(self.val(a[1]))))
        return Opq('void')

    def f_begin(self, n, a):
        return It(self.as_lv(self.ev(a[0])), 0)

    f_cbegin = f_begin

    def f_end(self, n, a):
        return self.seq_end(self.as_lv(self.ev(a[0])))

    f_cend = f_end

    def f_distance(self, n, a):
        x, y = self.val(a[0]), self.val(a[1])
        if isinstance(x, It) and isinstance(y, It):
            try:
                d = ZERO
                for (_, s, off, cnt) in self.positions(x, y):
                    d = d + (ONE if cnt is None else cnt)
                return d
            except Unsupported:
                pass
        return opaque('distance')

    def f_find_if(self, n, a):
        b, e, fn = [self.val(x) for x in a]
        if isinstance(self.load(b.lv), Arr):
            return self.first_in(b, e, lambda x: tobool(self.load(self.call_fn(fn, [x], n))))
        pos = self.positions(b, e)

        def go(i):
            if i == len(pos):
                return e
            si, s, off, cnt = pos[i]
            if s[0] == 'one':
                it = It(b.lv, si, ZERO, b.rev)
                c = tobool(self.load(self.call_fn(fn, [self.it_lv(it)], n)))
                return self.branch(c, lambda: it, lambda: go(i + 1))
            bv = fresh_bv('f')
            s0 = self.snap()
            with under(le(ZERO, P(bv)), lt(P(bv), cnt)):
                it = It(b.lv, si, off + P(bv), b.rev)
                c = tobool(self.load(self.call_fn(fn, [self.it_lv(it)], n)))
            self.restore(s0)
            ex = fexists(bv, cnt, c)
            fst = pfirst(bv, cnt, c)

            def found():
                self.fact(subst(c, {bv: fst}))
                self.fact(lt(fst, cnt))
                return It(b.lv, si, off + fst, b.rev)
            return self.branch(ex, found, lambda: go(i + 1))
        return go(0)

    def quant(self, n, a, kind):
        b, e, fn = [self.val(x) for x in a]
        res = TRUE if kind != 'any' else FALSE
        for (si, s, off, cnt) in self.positions(b, e):
            if s[0] == 'one':
                c = tobool(self.load(self.call_fn(fn, [self.it_lv(It(b.lv, si, ZERO, b.rev))], n)))
                if kind == 'any':
                    res = f_or(res, c)
                else:
                    res = f_and(res, c if kind == 'all' else f_not(c))
            else:
                bv = fresh_bv('f')
                c = tobool(self.load(self.call_fn(fn, [self.it_lv(It(b.lv, si, off + P(bv), b.rev))], n)))
                if kind == 'any':
                    res = f_or(res, fexists(bv, cnt, c))
                else:
                    res = f_and(res, f_not(fexists(bv, cnt, f_not(c) if kind == 'all' else c)))
        return res

    def f_all_of(self, n, a):
        return self.quant(n, a, 'all')

    def f_any_of(self, n, a):
        return self.quant(n, a, 'any')

    def f_none_of(self, n, a):
        return self.quant(n, a, 'none')

    def f_make_pair(self, n, a):
        return Rec('std::pair', {'first': self.copyval(self.ev(a[0])), 'second': self.copyval(self.ev(a[1]))})

    def f_make_tuple(self, n, a):
        return Rec('std::tuple', {str(i): self.copyval(self.ev(x)) for i, x in enumerate(a)})

    def f_tie(self, n, a):
        lvs = []
        for x in a:
            lv = self.ev(x)
            lvs.append(lv if isinstance(lv, LV) and 'ignore' not in repr(lv.root) and x.get('n') != 'ignore' else None)
        return Tie(lvs)

    def f_make_optional(self, n, a):
        return Rec('std::optional', {'has': TRUE, 'v': self.copyval(self.ev(a[0]))})

    def f_swap(self, n, a):
        x, y = self.ev(a[0]), self.ev(a[1])
        vx, vy = self.load(x), self.load(y)
        self.write(x, vy)
        self.write(y, vx)
        return Opq('void')

    def whole(self, n, b, e):
        """the elements between two iterators as lvalues, when each is known"""
        if isinstance(b, It) and isinstance(e, It) and b.lv == e.lv and not b.rev:
            v = self.load(b.lv)
            if isinstance(v, Arr) and b.off.is_const() and e.off.is_const():
                return [self.it_lv(It(b.lv, b.seg, P(k), b.rev)) for k in range(int(b.off.const()), int(e.off.const()))]
            if isinstance(v, Seq):
                pos = self.positions(b, e)
                if all(s[0] == 'one' for _, s, _, _ in pos):
                    return [self.it_lv(It(b.lv, si, ZERO, b.rev)) for si, _, _, _ in pos]
        return None

    def f_sort(self, n, a):
        xs = self.whole(n, self.val(a[0]), self.val(a[1])) if len(a) == 2 else None
        vs = [self.load(x) for x in xs] if xs is not None else None
        if vs is None or not all(isinstance(v, Poly) and v.is_const() for v in vs):
            self.note(n, 'sort')
            return self.havoc_call(n)
        for x, v in zip(xs, sorted(vs, key=lambda v: v.const())):
            self.write(x, v)
        return Opq('void')

    f_stable_sort = f_sort

    def f_reverse(self, n, a):
        xs = self.whole(n, self.val(a[0]), self.val(a[1]))
        if xs is None:
            self.note(n, 'reverse')
            return self.havoc_call(n)
        vs = [self.load(x) for x in xs]
        for x, v in zip(xs, reversed(vs)):
            self.write(x, v)
        return Opq('void')

    def f_exchange(self, n, a):
        x = self.ev(a[0])
        old = self.load(x)
        self.write(x, self.copyval(self.ev(a[1])))
        return old

    def f_pow(self, n, a):
        b, e = self.val(a[0]), topoly(self.val(a[1]))
        if isinstance(b, Arr):
            return cw(lambda x: ppow(x, e), b)
        return ppow(topoly(b), e)

    def f_hypot(self, n, a):
        x, y = topoly(self.val(a[0])), topoly(self.val(a[1]))
        return ppow(x * x + y * y, P(T.Fraction(1, 2)))

    def f_max(self, n, a):
        x = [topoly(self.val(y)) for y in a[:2]]
        return self.minmax(x, 'max')

    def f_min(self, n, a):
        x = [topoly(self.val(y)) for y in a[:2]]
        return self.minmax(x, 'min')

    f_fmax = f_max
    f_fmin = f_min

    def minmax(self, x, k):
        if len(x) == 1:
            return opaque(k)
        v = dec(le(x[0], x[1]))
        if v is not None:
            return x[1] if v == (k == 'max') else x[0]
        return fun(k, *x, sort='int' if is_int(x[0]) and is_int(x[1]) else 'real')

    def f_clamp(self, n, a):
        x, lo, hi = [topoly(self.val(y)) for y in a[:3]]
        return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))

    def f_floor(self, n, a):
        v = self.val(a[0])
        return fun('floor', topoly(v), sort='int')

    def f_to_string(self, n, a):
        return Str()

    def f_accumulate(self, n, a):
        vs = [self.val(x) for x in a]
        if len(vs) == 3 and isinstance(vs[0], It) and isinstance(self.load(vs[0].lv), Arr):
            arr = self.load(vs[0].lv)
            return topoly(vs[2]) + asum(vs[1].off - vs[0].off, lambda k: arr.lin(vs[0].off + k))
        if len(vs) in (3, 4) and isinstance(vs[0], It):
            acc = self.temp(vs[2])

            def add(lv):
                if len(vs) == 3:
                    r = self.arr_bin('+', self.load(acc), self.load(lv))
                    if r is None:
                        raise Unsupported('accumulate')
                else:
                    r = self.call_fn(vs[3], [self.load(acc), lv], n)
                r = self.load(r)
                if is_num(vs[2]) and not is_num(r):
                    raise Unsupported('accumulate')
                self.write(acc, r)
            arr = self.load(vs[0].lv)
            if isinstance(arr, Arr):
                cnt = vs[1].off - vs[0].off
                at = lambda k: self.elem(vs[0].lv, self.load(vs[0].lv), [vs[0].off + k])
                if cnt.is_const() and cnt.const() <= 32:
                    for k in range(int(cnt.const())):
                        add(at(P(k)))
                else:
                    self.generic_loop(cnt, lambda k: None, None, n, call=lambda k: add(at(k)))
            else:
                self.iterate_range(vs[0], vs[1], add, n)
            return self.load(acc)
        raise Unsupported('accumulate')

    def f_partial_sum(self, n, a):
        vs = [self.val(x) for x in a]
        if len(vs) != 3 or not all(isinstance(v, It) and isinstance(self.load(v.lv), Arr) for v in vs):
            raise Unsupported('partial_sum')
        src, dst = self.load(vs[0].lv), self.load(vs[2].lv)
        cnt, o, d0 = vs[1].off - vs[0].off, vs[0].off, vs[2].off
        vec = Arr(cnt, ONE, lambda i, j: asum(i + 1, lambda k: src.lin(o + k)))
        self.write(vs[2].lv.sub(self.reshape_view(dst, d0, cnt, ONE)), vec)
        return It(vs[2].lv, 0, d0 + cnt)

    def first_in(self, it, end, pred):
        """first position of [it, end) in an array where pred(element) holds"""
        cnt = end.off - it.off
        at = lambda k: self.elem(it.lv, self.load(it.lv), [it.off + k])
        if cnt.is_const():
            r = cnt
            if cnt.const() > 32:
                raise Unsupported('long search')
            for k in reversed(range(int(max(0, cnt.const())))):
                r = ite(pred(at(P(k))), P(k), r)
            return It(it.lv, 0, it.off + r, it.rev)
        bv = fresh_bv('f')
        s0 = self.snap()
        with under(le(ZERO, P(bv)), lt(P(bv), cnt)):
            c = pred(at(P(bv)))
        self.restore(s0)
        return It(it.lv, 0, it.off + ite(fexists(bv, cnt, c), pfirst(bv, cnt, c), cnt), it.rev)

    def f_lower_bound(self, n, a, strict=False):
        vs = [self.val(x) for x in a]
        if len(vs) != 3 or not isinstance(vs[0], It) or not isinstance(self.load(vs[0].lv), Arr):
            raise Unsupported('lower_bound')
        x = topoly(vs[2])
        return self.first_in(vs[0], vs[1], (lambda e: lt(x, topoly(self.load(e)))) if strict else (lambda e: le(x, topoly(self.load(e)))))

    def f_upper_bound(self, n, a):
        return self.f_lower_bound(n, a, True)

    def f_get(self, n, a):
        x = self.ev(a[0])
        i = n.get('targs0') if n.get('targs0') is not None else (n.get('fn') or {}).get('targs0')
        v = self.load(x)
        if isinstance(v, Rec) and i is not None:
            names = list(v.d)
            return self.as_lv(x).sub(('f', names[int(i)]))
        return Opq('get')

    def f_make_unique(self, n, a):
        t = self.prog.ty(n.get('t'))
        ta = t.get('targs') or []
        cls = None
        if ta:
            et = self.prog.ty(ta[0]) if isinstance(ta[0], int) else ta[0]
            cls = et if isinstance(et, str) else et['c']
        if cls is None:
            import re
            m = re.match(r'std::unique_ptr<([^,>]*(?:<.*>)?)', t['c'])
            cls = m.group(1) if m else None
        if cls in self.prog.records:
            return Box(self.construct_by_args(cls, a, n))
        if cls and cls.startswith('Eigen::Matrix'):
            return Box(self.std_ctor({'a': a, 't': None, 'k': 'ctor'}, {}, cls, {'c': cls, 'cls': 'rec'}))
        self.note(n, 'make_unique<%s>' % cls)
        return Box(Opq('make_unique'))

    f_make_shared = f_make_unique

    def construct_by_args(self, cls, a, n):
        vals = [self.ev(x) for x in a]
        cands = [f for f in self.prog.fns.values() if f.get('clsfull') == cls and f.get('ctor')]
        inh = []
        best = None
        for f in cands:
            ps = f['params']
            if len(ps) < len(a):
                continue
            extra = ps[len(a):]
            if any(p.get('def') is None and p.get('init') is None for p in extra) and extra and not all('string' in self.prog.ty(p['t'])['s'] for p in extra):
                continue
            sc = 0
            for p, x, node in zip(ps, vals, a):
                s = self.match(self.prog.ty(p['t']), x, node)
                if s is None:
                    sc = None
                    break
                sc += s
            if sc is None:
                continue
            sc -= len(extra) * 0.1
            if best is None or sc > best[0]:
                best = (sc, f, extra)
        if best is None:
            self.note(n, 'no constructor of %s matches' % cls)
            return Opq('make_unique')
        _, f, extra = best
        if f.get('copy') or f.get('move'):
            return self.construct({'a': a, 'copy': f.get('copy'), 'move': f.get('move'), 'k': 'ctor', 'l': n.get('l')}, {'m': f['m']}, cls)
        args = list(vals)
        for p in extra:
            d = p.get('def') or p.get('init')
            args.append(self.ev(d) if d else Str())
        root = self.temp(Rec(cls, {}), 'o')
        self.call_repo(f, args, root, n)
        return self.take(root)

    def is_rvalue(self, node):
        return (node.get('k') == 'call' and node.get('n') in ('move', 'forward')) or node.get('k') in ('ctor', 'initlist', 'int', 'float', 'call', 'mcall', 'opcall') and not self.prog.ty(node.get('t')).get('ref')

    def match(self, t, x, node):
        v = self.load(x)
        nt = self.prog.ty(node.get('t'))
        c = t['c'].replace('const ', '').replace('&', '').strip()
        sc = 0
        if t.get('rref'):
            if not self.is_rvalue(node):
                return None
            sc += 2
        elif t.get('ref') and 'const' not in t['s']:
            if self.is_rvalue(node):
                return None
        if isinstance(v, Rec):
            if c == v.cls:
                return sc + 5
            if v.cls in self.prog.records and self.prog.derives(v.cls, c):
                return sc + 3
            if v.cls.startswith('std::') and c.startswith(v.cls):
                return sc + 5
            return None
        if isinstance(v, Abs):
            return sc + 3 if c in self.absmodels[v.kind].classes else None
        if is_num(v):
            return sc + 4 if t.get('cls') in ('int', 'uint', 'float', 'bool', 'enum') or c in ('double', 'unsigned long', 'int', 'bool') else None
        if isinstance(v, Arr):
            return sc + 4 if 'Eigen' in c or 'vector' in c else None
        if isinstance(v, Seq):
            return sc + 4 if 'list' in c or 'vector' in c else None
        if isinstance(v, Str):
            return sc + 4 if 'string' in c else None
        if isinstance(v, Box):
            return sc + 4 if 'unique_ptr' in c else None
        if isinstance(v, Fn):
            return sc + 4 if 'function' in c or '(' in c else None
        return sc

    # ---------------------------------------------------------- std ctors
    def std_ctor(self, n, fn, cls, t):
        a = n['a']
        c = (t.get('c') or cls or '').replace('const ', '')
        if c.startswith(('Eigen::Ref<', 'Eigen::Map<')):
            return self.ref_ctor(n, c, a)
        if c.startswith(('Eigen::Matrix<', 'Eigen::Array<')):
            return self.dense_ctor(n, c, t, a)
        if c.startswith('Eigen::Sparse') or c.startswith('Eigen::Triplet'):
            return self.sparse_ctor(n, c, a)
        if c.startswith(('std::list<', 'std::vector<', 'std::__cxx11::list<', 'std::deque<')):
            if not a:
                return self.empty_seq(t)
            x = self.ev(a[0])
            v = self.load(x)
            if is_num(v):
                sz = topoly(v)
                fillv = self.val(a[1]) if len(a) > 1 and 'allocator' not in self.prog.ty(a[1].get('t'))['c'] else self.seq_zero(t)
                if is_num(fillv):
                    z = topoly(fillv)
                    return Arr(sz, ONE, lambda i, j: z)
                return Seq([('gen', sz, lambda i: fillv, None)])
            if isinstance(v, It):
                e = self.val(a[1])
                if isinstance(self.load(v.lv), Arr):
                    arr = self.load(v.lv)
                    o = v.off
                    return Arr(e.off - v.off, ONE, lambda i, j: arr.lin(o + i))
                out = self.temp(Seq())
                self.map_range(v, e, lambda lv: self.load(lv), Ins(out, False), n)
                return self.take(out)
            if n.get('move') and isinstance(x, LV):
                self.moved_from(x, v)
            if isinstance(v, Arr) and isinstance(self.empty_seq(t), Seq):
                return v
            return v
        if c.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
            if not a:
                return Box(None)
            x = self.ev(a[0])
            return self.to_box(x)
        if c.startswith('std::pair<'):
            if len(a) == 2:
                return Rec('std::pair', {'first': self.copyval(self.ev(a[0])), 'second': self.copyval(self.ev(a[1]))})
            if not a:
                return self.std_default(t)
            return self.copyval(self.ev(a[0]))
        if c.startswith('std::tuple<'):
            if len(a) == 1:
                v = self.copyval(self.ev(a[0]))
                if isinstance(v, Rec) and v.cls == 'std::tuple':
                    return v
                return Rec('std::tuple', {'0': v})
            return Rec('std::tuple', {str(i): self.copyval(self.ev(x)) for i, x in enumerate(a)})
        if c.startswith('std::optional<'):
            if not a:
                return Rec('std::optional', {'has': FALSE, 'v': Opq('empty optional')})
            v = self.copyval(self.ev(a[0]))
            if isinstance(v, Rec) and v.cls in ('std::optional', 'std::nullopt'):
                return v if v.cls == 'std::optional' else Rec('std::optional', {'has': FALSE, 'v': Opq('empty')})
            return Rec('std::optional', {'has': TRUE, 'v': v})
        if c.startswith(('std::map<', 'std::unordered_map<')):
            return self.copyval(self.ev(a[0])) if a else Rec('std::map', {})
        if c.startswith('std::function<'):
            if not a:
                return Ptr(None)
            return self.copyval(self.ev(a[0]))
        if 'basic_string' in c or 'string_view' in c:
            for x in a[:1]:
                v = self.val(x)
                if isinstance(v, Str):
                    return v
            return Str('' if not a else None)
        if c.startswith(('std::_List_', '__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator')):
            return self.val(a[0]) if a else Opq('iterator')
        if any(x in c for x in ('std::invalid_argument', 'std::runtime_error', 'std::logic_error', 'std::out_of_range', 'std::exception', 'std::domain_error', 'std::length_error')):
            return Opq(c)
        if c.startswith('std::array<'):
            return self.copyval(self.ev(a[0])) if a else self.std_default(t)
        if c.startswith('Eigen::') and len(a) == 1:
            return self.ev(a[0])
        if len(a) == 1 and (n.get('copy') or n.get('move')):
            return self.ev(a[0])
        if c.startswith('std::atomic'):
            return Opq('atomic')
        self.note(n, 'constructor of %s' % c[:60])
        for x in a:
            self.ev(x)
        return Opq('ctor %s' % c[:30])

    def seq_zero(self, t):
        ta = t.get('targs') or []
        return self.zero_of(ta[0]) if ta else ZERO

    def to_box(self, x):
        v = self.load(x)
        if isinstance(v, Ptr):
            if v.lv is None:
                return Box(None)
            return Box(self.load(v.lv))
        if isinstance(v, Box):
            if isinstance(x, LV):
                self.write(x, Box(None))
            return v
        if isinstance(v, Sel):
            if isinstance(x, LV):
                self.write(x, Box(None))
            return self.mv(v.c, self.to_box(v.a), self.to_box(v.b))
        if isinstance(v, Opq):
            return Box(v)
        raise Unsupported('unique_ptr from %r' % (v,))

    def ref_ctor(self, n, c, a):
        x = self.ev(a[0])
        if c.startswith('Eigen::Map<'):
            return self.map_ctor(n, c, x, a[1:])
        v = self.load(x)
        if isinstance(v, Ptr) and v.lv is not None:
            return v.lv
        x = x if isinstance(x, LV) else self.temp(v)
        if isinstance(v, Arr):
            # a vector bound to a Ref of the other orientation
            import re
            m = re.search(r'Matrix<[^<>]*?, (-?\d+), (-?\d+)', c)
            if m and (m.group(2) == '1' and v.rows == ONE and v.cols != ONE or m.group(1) == '1' and v.cols == ONE and v.rows != ONE):
                return x.sub(transpose_view(v.rows, v.cols))
        return x

    def map_ctor(self, n, c, x, rest):
        import re
        v = self.load(x)
        dims = [topoly(self.val(y)) for y in rest if self.prog.ty(y.get('t')).get('cls') in ('int', 'uint')]
        m = re.search(r'Matrix<[^<>]*?, (-?\d+), (-?\d+)(?:, (\d+))?', c)
        r0 = int(m.group(1)) if m else -1
        c0 = int(m.group(2)) if m else -1
        rowmajor = bool(m and m.group(3) and int(m.group(3)) & 1)
        if len(dims) == 2:
            rows, cols = dims
        elif len(dims) == 1:
            rows, cols = (dims[0], ONE) if c0 == 1 else (ONE, dims[0])
        else:
            rows, cols = P(r0), P(c0)
        if isinstance(v, It) and isinstance(self.load(v.lv), Arr):
            return v.lv.sub(self.reshape_view(self.load(v.lv), v.off, rows, cols, rowmajor))
        if not isinstance(v, Rec) or v.cls != 'rawdata':
            self.note(n, 'Eigen::Map of unknown memory')
            return self.temp(self.uninit_opq(rows, cols), 'unknown')
        base, off = v.d['lv'].lv, v.d['off']
        bv_ = self.load(base)
        return base.sub(self.reshape_view(bv_, off, rows, cols, rowmajor))

    def reshape_view(self, b, off, rows, cols, rowmajor=False):
        br, bc = b.rows, b.cols

        def lin(i, j):
            return off + (i * cols + j if rowmajor else i + j * rows)

        def fwd(i, j):
            l = lin(i, j)
            if bc == ONE:
                return l, ZERO
            if br == ONE:
                return ZERO, l
            if rows == br and off == ZERO and not rowmajor:
                return i, j
            q = cur().divide(l, br)
            if q is None:
                q = idiv(l, br)
            return l - q * br, q

        def inv(I, J):
            l = (I if bc == ONE else J if br == ONE else I + J * br) - off
            size = rows * cols
            cs = []
            full = off == ZERO and size == br * bc
            if not full:
                cs = [le(ZERO, l), lt(l, size)]
            d = cols if rowmajor else rows
            if d == ONE:
                q, r = l, ZERO
            elif d == size:
                q, r = ZERO, l
            else:
                q = cur().divide(l, d)
                if q is None:
                    q = idiv(l, d)
                r = l - q * d
            return f_and(*cs), (q if rowmajor else r), (r if rowmajor else q)
        return View(rows, cols, fwd, inv)

    def uninit_opq(self, r, c):
        u = next(V.T._opn)
        return Arr(r, c, lambda i, j: Poly.at(atom('opaque', 'mem%d' % u, i, j)))

    def dense_ctor(self, n, c, t, a):
        r, k = self.fixed_dims(t if t.get('c') else {'c': c})
        isarr = c.startswith('Eigen::Array<')
        if not a:
            return self.uninit_arr(r if r is not None else ZERO, k if k is not None else ZERO, isarr)
        vs = [self.val(x) for x in a]
        v = vs[0]
        if isinstance(v, Opq):
            return Opq('dense from unknown')
        if len(vs) == 1 or (len(vs) == 2 and isinstance(vs[0], Arr)):
            if isinstance(v, Arr):
                return self.shape_to(v, r, k, isarr)
            if isinstance(v, Seq):
                # nested initialiser list
                rows = [s[1] for s in v.segs]
                if all(isinstance(x, Arr) for x in rows):
                    return Arr(P(len(rows)), rows[0].rows, lambda i, j: pick2(rows, i, j), isarr)
            if is_num(v):
                x = topoly(v)
                if k is not None and k == ONE and r is None:
                    return self.uninit_arr(x, ONE, isarr)
                if r is not None and r == ONE and k is None:
                    return self.uninit_arr(ONE, x, isarr)
                if r == ONE and k == ONE:
                    return Arr(ONE, ONE, lambda i, j: x, isarr)
        if len(vs) == 2 and all(is_num(x) for x in vs):
            if r is not None and k is not None and r * k == P(2):
                ps = [topoly(x) for x in vs]
                return Arr(r, k, lambda i, j: pick(ps, i + j), isarr)
            return self.uninit_arr(topoly(vs[0]), topoly(vs[1]), isarr)
        if all(is_num(x) for x in vs):
            ps = [topoly(x) for x in vs]
            if k == ONE:
                return Arr(P(len(ps)), ONE, lambda i, j: pick(ps, i), isarr)
            return Arr(ONE, P(len(ps)), lambda i, j: pick(ps, j), isarr)
        self.note(n, 'dense constructor')
        return Opq('dense')

    def shape_to(self, v, r, k, isarr=False):
        """conform an expression to a matrix type with fixed dims r,k"""
        f = v.f
        if k is not None and k == ONE and v.cols != ONE and v.rows == ONE:
            return Arr(v.cols, ONE, lambda i, j: f(ZERO, i), isarr)
        if r is not None and r == ONE and v.rows != ONE and v.cols == ONE:
            return Arr(ONE, v.rows, lambda i, j: f(j, ZERO), isarr)
        return Arr(v.rows, v.cols, f, isarr, None)

    def sparse_ctor(self, n, c, a):
        if c.endswith('::InnerIterator') and len(a) == 2:
            # stored entries: visited with the entries in between, which are zero
            lv = self.ev(a[0])
            if not isinstance(self.load(lv), Arr):
                raise Unsupported('iterator of an unknown matrix')
            return Rec('sparse_it', {'lv': Ptr(self.as_lv(lv)), 'outer': topoly(self.val(a[1])), 'pos': ZERO, 'rm': 'double, 1' in c or 'RowMajor' in c or ', 1>' in c})
        if c.startswith('Eigen::SparseMatrix<'):
            if not a:
                return Arr(ZERO, ZERO, lambda i, j: ZERO)
            vs = [self.val(x) for x in a]
            if isinstance(vs[0], Arr):
                return vs[0]
            if len(vs) == 2:
                return Arr(topoly(vs[0]), topoly(vs[1]), lambda i, j: ZERO)
        if c.startswith('Eigen::Triplet'):
            vs = [self.val(x) for x in a]
            return Rec('Eigen::Triplet', {'row': topoly(vs[0]), 'col': topoly(vs[1]), 'value': topoly(vs[2])})
        return Rec(c.split('<')[0], {})

    def eig_static(self, n, name, vs):
        t = self.prog.ty(n.get('t'))
        r, k = self.static_dims(n)
        isarr = 'ArrayBase' in ((n.get('fn') or {}).get('q') or '') or (n.get('fn') or {}).get('q', '').find('Eigen::Array<') >= 0
        val = {'Zero': ZERO, 'Ones': ONE}.get(name)
        args = [topoly(v) for v in vs]
        if name == 'Constant':
            val = args.pop()
        if name == 'LinSpaced':
            cnt, lo, hi = args
            f = lambda x: lo + (hi - lo) * x / (cnt - 1)
            return Arr(cnt, ONE, lambda i, j: f(i)) if k == ONE or k is None else Arr(ONE, cnt, lambda i, j: f(j))
        if len(args) == 2:
            rows, cols = args
        elif len(args) == 1:
            rows, cols = (ONE, args[0]) if r == ONE and k is None else (args[0], ONE)
        else:
            rows, cols = r if r is not None else ZERO, k if k is not None else ZERO
        if name == 'Identity':
            return Arr(rows, cols, lambda i, j: ite(eq(i, j), ONE, ZERO), isarr)
        if name == 'Random':
            return self.uninit_opq(rows, cols)
        if val is None:
            return Opq(name)
        return Arr(rows, cols, lambda i, j: val, isarr)

    def static_dims(self, n):
        q = (n.get('fn') or {}).get('q') or ''
        r, k = self.fixed_dims({'c': q})
        return r, k

    # ---------------------------------------------------------- std methods
    def std_method(self, n, name, obj):
        if isinstance(obj, Sel):
            return self.branch(obj.c, lambda: self.std_method(n, name, obj.a), lambda: self.std_method(n, name, obj.b))
        v = self.load(obj)
        if isinstance(v, Sel):
            if isinstance(obj, LV):
                return self.branch(v.c, lambda: (self.write(obj, v.a), self.std_method(n, name, obj))[1],
                                   lambda: (self.write(obj, v.b), self.std_method(n, name, obj))[1])
            return self.lift(v, lambda x: self.std_method(n, name, x))
        if isinstance(v, Arr):
            r = self.arr_method(n, name, obj, v)
            if r is not NotImplemented:
                return r
        elif isinstance(v, Seq):
            r = self.seq_method(n, name, obj, v)
            if r is not NotImplemented:
                return r
        elif isinstance(v, Box):
            r = self.box_method(n, name, obj, v)
            if r is not NotImplemented:
                return r
        elif isinstance(v, Rec) and v.cls == 'partial':
            return self.partial_method(n, name, v)
        elif isinstance(v, Rec) and v.cls == 'std::optional':
            if name == 'has_value':
                return v.d['has']
            if name in ('value', 'operator*'):
                return self.as_lv(obj).sub(('f', 'v'))
            if name == 'value_or':
                return self.mv(v.d['has'], v.d['v'], self.val(n['a'][0]))
            if name.startswith('operator bool'):
                return v.d['has']
        elif isinstance(v, Str):
            if name == 'empty':
                return (TRUE if v.s == '' else FALSE) if v.s is not None else bopaque('str')
            for a in n['a']:
                self.ev(a)
            return Str() if name in ('substr', 'append') else Opq('string')
        elif isinstance(v, Fn) and name.startswith('operator'):
            return TRUE
        elif isinstance(v, It):
            if name == 'base':
                return v
        elif isinstance(v, Ptr) and name.startswith('operator bool'):
            return tobool(v)
        elif isinstance(v, Rec) and v.cls.startswith('Eigen::Sparse'):
            r = self.solver_method(n, name, obj, v)
            if r is not NotImplemented:
                return r
        elif isinstance(v, Rec) and v.cls == 'std::map':
            if name in ('count', 'contains'):
                k = self.map_key(topoly(self.val(n['a'][0])))
                return (ONE if name == 'count' else TRUE) if k in v.d else (ZERO if name == 'count' else FALSE)
            if name == 'size':
                return P(len(v.d))
            if name == 'empty':
                return FALSE if v.d else TRUE
            if name == 'clear':
                self.write(obj, Rec('std::map', {}))
                return Opq('void')
            if name == 'at':
                k = self.map_key(topoly(self.val(n['a'][0])))
                if k in v.d:
                    return self.as_lv(obj).sub(('f', k)).sub(('f', 'second'))
            ks = self.map_keys(v)
            it = lambda k, rv=False: Rec('map_it', {'lv': Ptr(self.as_lv(obj)), 'pos': Str(k), 'rev': Str('r' if rv else '')})
            if name in ('end', 'cend', 'rend', 'crend'):
                return it('end', 'r' in name)
            if name in ('begin', 'cbegin'):
                return it(ks[0] if ks else 'end')
            if name in ('rbegin', 'crbegin'):
                return it(ks[-1] if ks else 'end', True)
            if name == 'find':
                k = self.map_key(topoly(self.val(n['a'][0])))
                return it(k if k in v.d else 'end')
            if name in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
                xs = [self.val(y) for y in n['a']]
                if len(xs) == 1 and isinstance(xs[0], Rec) and xs[0].cls == 'std::pair':
                    xs = [xs[0].d['first'], xs[0].d['second']]
                if len(xs) == 2 and is_num(xs[0]):
                    k = self.map_key(topoly(xs[0]))
                    new = k not in v.d
                    if new or name == 'insert_or_assign':
                        self.write(self.as_lv(obj).sub(('f', k)), Rec('std::pair', {'first': topoly(xs[0]), 'second': self.copyval(xs[1])}))
                    return Rec('std::pair', {'first': it(k), 'second': TRUE if new else FALSE})
            raise Unsupported('method %s of a map' % name)
        elif isinstance(v, Rec) and v.cls == 'sparse_it':
            base = self.load(v.d['lv'].lv)
            o, q = topoly(v.d['outer']), topoly(v.d['pos'])
            i, j = (o, q) if v.d['rm'] else (q, o)
            if name in ('value', 'valueRef'):
                return self.elem(v.d['lv'].lv, base, [i, j])
            if name == 'operator bool':
                return lt(q, topoly(base.cols if v.d['rm'] else base.rows))
            if name in ('row', 'col', 'index', 'outer'):
                return {'row': i, 'col': j, 'index': q, 'outer': o}[name]
        elif isinstance(v, Rec) and v.cls == 'Eigen::Triplet':
            if name in v.d:
                return v.d[name]
        elif is_num(v) and name in ('value',):
            return v
        if name == 'store' or name == 'load' or name.startswith('fetch_'):
            for a in n['a']:
                self.ev(a)
            return Opq('atomic')
        self.note(n, 'method %s of %r' % (name, type(v).__name__))
        if isinstance(obj, LV) and not (n.get('fn') or {}).get('const') and not isinstance(v, Opq):
            self.write(obj, self.havoc_of(v))
        return self.havoc_call(n)

    def map_keys(self, v):
        return sorted(v.d, key=lambda k: topoly(v.d[k].d['first']).const())

    def map_key(self, i):
        if not i.is_const():
            raise Unsupported('map with a symbolic key')
        return 'key %s' % i.const()

    def solver_method(self, n, name, obj, v):
        """sparse linear solvers: solve(b) is the solution of A x = b"""
        a = n['a']
        if name in ('compute', 'factorize', 'analyzePattern'):
            if name != 'analyzePattern':
                m = self.val(a[0])
                self.write(obj, Rec(v.cls, {'A': m}))
            else:
                self.ev(a[0])
            return obj
        if name == 'info':
            return P(self.solver_info) if self.solver_info is not None else Poly.at(atom('solverinfo', sort='int'))
        if name in ('solve',):
            if 'A' not in v.d:
                return Opq('solve without factorisation')
            b = self.val(a[0])
            A = v.d['A']
            key = ('solve', id(A), id(b))
            u = next(V.T._opn)
            self.solves.append((u, A, b, self.where(n), self.pc))
            return Arr(A.cols, b.cols if isinstance(b, Arr) else ONE,
                       lambda i, j: Poly.at(atom('solution', u, i, j)))
        return NotImplemented

    solves = []
    solver_info = None       # what the factorisation reports; None: either

    def box_method(self, n, name, obj, v):
        if name == 'get':
            return Ptr(None) if v.v is None else Ptr(self.as_lv(obj).sub(('box',)))
        if name == 'release':
            if isinstance(obj, LV):
                self.write(obj, Box(None))
            if v.v is None:
                return Ptr(None)
            return Ptr(self.temp(v.v, 'heap'))
        if name == 'reset':
            self.write(obj, self.to_box(self.ev(n['a'][0])) if n['a'] else Box(None))
            return Opq('void')
        if name == 'swap':
            o = self.ev(n['a'][0])
            w = self.load(o)
            self.write(o, v)
            self.write(obj, w)
            return Opq('void')
        if name.startswith('operator bool'):
            return tobool(v)
        return NotImplemented

    def seq_method(self, n, name, obj, v):
        a = n['a']
        lv = obj
        if name in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
            x = self.arg_elem(n, a, name, lv)
            self.push(lv, x, 'front' in name)
            return Opq('void')
        if name == 'size':
            return seq_len(v)
        if name == 'data' and all(g[0] == 'one' and is_num(g[1]) for g in v.segs) and 'const' in self.prog.ty(n.get('t')).get('s', ''):
            xs = [topoly(g[1]) for g in v.segs]
            import absfun
            return It(self.temp(Arr(P(len(xs)), ONE, lambda i, j: absfun.pick(i, xs) if xs else ZERO)), 0, ZERO)
        if name == 'empty':
            return eq(seq_len(v), ZERO)
        if name == 'clear':
            self.write(lv, Seq())
            return Opq('void')
        if name == 'reserve' or name == 'shrink_to_fit':
            return Opq('void')
        if name in ('front', 'back', 'at') or name == 'operator[]':
            lv = self.as_lv(obj)
            if name == 'front':
                return lv.sub(('el', 0, ZERO)) if v.segs else Opq('front of empty')
            if name == 'back':
                if not v.segs:
                    return Opq('back of empty')
                s = v.segs[-1]
                return lv.sub(('el', len(v.segs) - 1, ZERO if s[0] == 'one' else s[1] - 1))
            return self.seq_index(lv, v, topoly(self.val(a[0])))
        if name in ('begin', 'cbegin'):
            return It(self.as_lv(obj), 0)
        if name in ('end', 'cend'):
            return self.seq_end(self.as_lv(obj))
        if name in ('rbegin', 'crbegin'):
            return It(self.as_lv(obj), 0, ZERO, True)
        if name in ('rend', 'crend'):
            return self.seq_end(self.as_lv(obj), True)
        if name in ('pop_front', 'pop_back'):
            if v.segs and v.segs[0 if name == 'pop_front' else -1][0] == 'one':
                self.write(lv, Seq(v.segs[1:] if name == 'pop_front' else v.segs[:-1]))
                return Opq('void')
            raise Unsupported('pop of a generic sequence')
        if name == 'swap':
            o = self.ev(a[0])
            w = self.load(o)
            self.write(o, v)
            self.write(lv, w)
            return Opq('void')
        if name == 'splice':
            pos = self.val(a[0])
            o = self.ev(a[1])
            if len(a) == 2 and isinstance(pos, It):
                w = self.load(o)
                if pos.off == ZERO:
                    self.write(lv, Seq(v.segs[:pos.seg] + w.segs + v.segs[pos.seg:]))
                    self.write(o, Seq())
                    return Opq('void')
            raise Unsupported('splice')
        if name == 'insert':
            pos = self.val(a[0])
            if len(a) == 3 and isinstance(pos, It) and pos.off == ZERO:
                out = self.temp(Seq())
                b, e = self.val(a[1]), self.val(a[2])
                mv = self.prog.ty(a[1].get('t'))['c'].startswith('std::move_iterator')
                self.map_range(b, e, lambda x: self.load(x), Ins(out, False), n, move=mv)
                w = self.take(out)
                v = self.load(lv)
                self.write(lv, Seq(v.segs[:pos.seg] + w.segs + v.segs[pos.seg:]))
                return Opq('void')
            if len(a) == 2 and isinstance(pos, It) and pos.off == ZERO:
                x = self.copyval(self.ev(a[1]))
                self.write(lv, Seq(v.segs[:pos.seg] + (('one', x),) + v.segs[pos.seg:]))
                return Opq('void')
            raise Unsupported('insert')
        return NotImplemented

    def seq_index(self, lv, v, i):
        off = i
        for k, s in enumerate(v.segs):
            if s[0] == 'one':
                d = dec(eq(off, ZERO))
                if d is True:
                    return lv.sub(('el', k, ZERO))
                if d is None:
                    break
                off = off - 1
            elif s[0] == 'gen' and s[3] is None:
                d = dec(lt(off, s[1]))
                if d is True or (k == len(v.segs) - 1):
                    return lv.sub(('el', k, off))
                if d is None:
                    break
                off = off - s[1]
            else:
                break
        # undecided: select among the segments
        def val_at(idx):
            def go(k, off):
                s = v.segs[k]
                if k == len(v.segs) - 1:
                    return s[1] if s[0] == 'one' else s[2](off)
                if s[0] == 'one':
                    return self.mv(eq(off, ZERO), s[1], go(k + 1, off - 1))
                return self.mv(lt(off, s[1]), s[2](off), go(k + 1, off - s[1]))
            return go(0, idx)
        return val_at(i)

    def arg_elem(self, n, a, name, lv):
        if name.startswith('emplace'):
            if len(a) == 1:
                x = self.ev(a[0])
                v = self.load(x)
                if isinstance(v, (Ptr, Box)):
                    return self.to_box(x)
                if isinstance(v, (Rec, Abs, Poly, Arr)):
                    return v
            vs = [self.val(x) for x in a]
            if len(vs) == 3 and all(is_num(x) for x in vs):
                return Rec('Eigen::Triplet', {'row': topoly(vs[0]), 'col': topoly(vs[1]), 'value': topoly(vs[2])})
            if len(vs) == 2:
                return Rec('std::pair', {'first': vs[0], 'second': vs[1]})
            raise Unsupported('emplace')
        x = self.ev(a[0])
        v = self.load(x)
        if isinstance(v, Box):
            return self.to_box(x)
        if isinstance(v, Sel) and isinstance(v.a, Box):
            return self.to_box(x)
        return v

    # ---------------------------------------------------------- Eigen methods
    def arr_method(self, n, name, obj, v):
        a = n['a']
        A = lambda i: topoly(self.val(a[i]))
        if name == 'size':
            return v.rows * v.cols
        if name == 'rows':
            return v.rows
        if name in ('outerSize', 'innerSize') and 'SparseMatrix<double, 1' in (n.get('fn') or {}).get('q', ''):
            return v.rows if name == 'outerSize' else v.cols
        if name in ('outerSize', 'innerSize') and v.rows == ONE:
            return ONE if name == 'outerSize' else v.cols
        if name == 'innerSize':
            return v.rows
        if name in ('cols', 'outerSize'):
            return v.cols
        if name == 'empty':
            return eq(v.rows * v.cols, ZERO)
        if name.startswith('operator') and name.replace('operator', '').replace('const', '').strip() in ('double', 'float'):
            return v.at(ZERO, ZERO)
        lv = self.as_lv(obj)

        def sub(r0, c0, r, c):
            for k, (b, l, e) in enumerate(((r0, r, v.rows), (c0, c, v.cols))):
                if b.is_const() and b.const() < 0:
                    self.in_range(b, e, 'start')
                self.in_range(b + l, e, 'end')
            return lv.sub(block_view(r0, c0, r, c, v.rows, v.cols))
        vec = v.cols == ONE
        rowv = v.rows == ONE and not vec

        def seg(i, m):
            return sub(ZERO, i, ONE, m) if rowv else sub(i, ZERO, m, ONE)
        if name in ('row',):
            return sub(A(0), ZERO, ONE, v.cols)
        if name == 'col':
            return sub(ZERO, A(0), v.rows, ONE)
        if name in ('segment', 'head', 'tail'):
            k = self.tmpl_n(n)
            if name == 'segment':
                return seg(A(0), A(1) if len(a) > 1 else k)
            m = A(0) if a else k
            if name == 'head':
                return seg(ZERO, m)
            return seg(v.rows * v.cols - m, m)
        if name == 'block':
            return sub(A(0), A(1), A(2), A(3)) if len(a) == 4 else NotImplemented
        if name in ('topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols'):
            if name == 'topRows':
                return sub(ZERO, ZERO, A(0), v.cols)
            if name == 'bottomRows':
                m = A(0)
                return sub(v.rows - m, ZERO, m, v.cols)
            if name == 'middleRows':
                return sub(A(0), ZERO, A(1), v.cols)
            if name == 'leftCols':
                return sub(ZERO, ZERO, v.rows, A(0))
            if name == 'rightCols':
                m = A(0)
                return sub(ZERO, v.cols - m, v.rows, m)
            return sub(ZERO, A(0), v.rows, A(1))
        if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            r, c = A(0), A(1)
            return sub(ZERO if 'top' in name else v.rows - r, ZERO if 'Left' in name else v.cols - c, r, c)
        if name in ('coeff', 'coeffRef', 'operator()', 'operator[]', 'at', 'x', 'y', 'z', 'insert', 'value'):
            if name == 'value' and not a:
                return v.f(ZERO, ZERO)
            if name in 'xyz':
                return self.elem(lv, v, [P('xyz'.index(name))])
            return self.elem(lv, v, [A(i) for i in range(len(a))])
        if name in ('front', 'back'):
            return self.elem(lv, v, [ZERO if name == 'front' else v.rows * v.cols - 1])
        if name == 'transpose' or name == 'adjoint':
            return lv.sub(transpose_view(v.rows, v.cols))
        if name in ('array', 'matrix'):
            w = View(v.rows, v.cols, lambda i, j: (i, j), lambda I, J: (TRUE, I, J), name == 'array', True)
            return lv.sub(w)
        if name in ('eval', 'derived', 'const_cast_derived', 'cast', 'real', 'toDenseMatrix', 'toDense', 'template', 'lazyProduct', 'selfadjointView', 'sparseView', 'pruned', 'toarray'):
            return obj if name in ('derived', 'const_cast_derived') else v
        if name == 'noalias':
            return obj
        if name in ('begin', 'cbegin'):
            return It(lv, 0, ZERO)
        if name in ('end', 'cend'):
            return It(lv, 0, v.rows * v.cols)
        if name in ('transposeInPlace', 'adjointInPlace', 'reverseInPlace'):
            lv = self.as_lv(obj)
            g = v.f
            if name == 'reverseInPlace':
                r, c = v.rows, v.cols
                self.write(lv, Arr(r, c, lambda i, j: g(r - 1 - i, c - 1 - j), v.arr))
            else:
                self.write(lv, Arr(v.cols, v.rows, lambda i, j: g(j, i), v.arr))
            return Opq('void')
        if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'setRandom', 'setLinSpaced'):
            args = [topoly(self.val(x)) for x in a]
            r, c = v.rows, v.cols
            if name in ('setZero', 'setOnes', 'setIdentity') and args:
                r, c = (args[0], args[1]) if len(args) == 2 else (args[0], ONE)
            if name == 'setConstant' and len(args) == 2:
                r, args = args[0], args[1:]
            if name == 'setIdentity':
                nv = Arr(r, c, lambda i, j: ite(eq(i, j), ONE, ZERO), v.arr)
            elif name == 'setRandom':
                nv = self.uninit_opq(r, c)
            elif name == 'setLinSpaced':
                return NotImplemented
            else:
                z = ZERO if name == 'setZero' else ONE if name == 'setOnes' else args[-1]
                nv = Arr(r, c, lambda i, j: z, v.arr)
            self.write(obj, nv)
            return obj
        if name in ('resize', 'conservativeResize', 'assign'):
            args = [topoly(self.val(x)) for x in a]
            if name == 'assign':
                z = args[1]
                self.write(obj, Arr(args[0], ONE, lambda i, j: z))
                return Opq('void')
            r, c = (args[0], args[1]) if len(args) == 2 else (args[0], ONE) if not rowv else (ONE, args[0])
            if name == 'resize':
                sp = 'Sparse' in self.prog.ty(n.get('ot')).get('c', '')
                if 'vector' in self.prog.ty(n.get('ot')).get('c', '')[:14]:
                    f, m = v.f, v.rows
                    z = args[1] if len(args) > 1 else ZERO
                    self.write(obj, Arr(args[0], ONE, lambda i, j: gite(lt(i, m), lambda: f(i, j), lambda: z)))
                    return Opq('void')
                if sp:
                    self.write(obj, Arr(r, c, lambda i, j: ZERO))
                elif v.rows == r and v.cols == c:
                    pass
                else:
                    self.write(obj, self.uninit_arr(r, c, v.arr))
            else:
                f = v.f
                u = self.uninit_arr(r, c)
                r0, c0 = v.rows, v.cols
                self.write(obj, Arr(r, c, lambda i, j: gite(f_and(lt(i, r0), lt(j, c0)), lambda: f(i, j), lambda: u.f(i, j)), v.arr))
            return Opq('void')
        if name in ('reserve', 'makeCompressed', 'finalize', 'shrink_to_fit', 'uncompress', 'prune', 'data_squeeze'):
            return Opq('void')
        if name == 'clear':
            self.write(obj, Arr(ZERO, ONE, lambda i, j: opaque('cleared')))
            return Opq('void')
        if name in ('push_back', 'emplace_back'):
            x = self.val(a[0])
            if is_num(x):
                self.push(lv, x)
                return Opq('void')
            if v.rows == ZERO:
                self.write(lv, Seq([('one', x)]))
                return Opq('void')
            return NotImplemented
        if name == 'diagonal':
            m = v.rows
            return lv.sub(View(m, ONE, lambda i, j: (i, i), lambda I, J: (eq(I, J), I, ZERO)))
        if name == 'asDiagonal':
            return Arr(v.rows * v.cols, v.rows * v.cols, lambda i, j: ite(eq(i, j), v.lin(i), ZERO), False, 'diag')
        if name in ('colwise', 'rowwise'):
            return Rec('partial', {'lv': Ptr(lv), 'kind': name})
        if name == 'replicate':
            r, c = A(0), A(1)
            return Arr(v.rows * r, v.cols * c, lambda i, j: v.f(ZERO if v.rows == ONE else imod(i, v.rows), ZERO if v.cols == ONE else imod(j, v.cols)), v.arr)
        if name == 'reshaped':
            if len(a) == 2:
                return lv.sub(self.reshape_view(v, ZERO, A(0), A(1)))
            if not a:
                return lv.sub(self.reshape_view(v, ZERO, v.rows * v.cols, ONE))
            return NotImplemented
        if name == 'reverse':
            r, c = v.rows, v.cols
            fl = lambda i, j: (ZERO if r == ONE else r - 1 - i, ZERO if c == ONE else c - 1 - j)
            return lv.sub(View(r, c, fl, lambda I, J: (TRUE,) + fl(I, J)))
        if name == 'data':
            if v.cols == ONE:
                return It(lv, 0, ZERO)
            return Rec('rawdata', {'lv': Ptr(lv), 'off': ZERO})
        if name in ('cwiseProduct', 'cwiseQuotient', 'cwiseMax', 'cwiseMin'):
            b = self.val(a[0])
            if isinstance(b, Arr):
                op = {'cwiseProduct': lambda x, y: x * y, 'cwiseQuotient': lambda x, y: x / y,
                      'cwiseMax': lambda x, y: self.minmax([x, y], 'max'), 'cwiseMin': lambda x, y: self.minmax([x, y], 'min')}[name]
                return cw2(op, v, b)
            return NotImplemented
        if name in ('cwiseAbs', 'cwiseSqrt', 'cwiseInverse', 'cwiseAbs2'):
            return cw({'cwiseAbs': fabs, 'cwiseSqrt': lambda x: sfun('sqrt', x), 'cwiseInverse': inv, 'cwiseAbs2': lambda x: x * x}[name], v)
        if name in ('square', 'cube', 'inverse', 'abs2') and (v.arr or name != 'inverse'):
            return cw({'square': lambda x: x * x, 'cube': lambda x: x * x * x, 'inverse': inv, 'abs2': lambda x: x * x}[name], v)
        if name == 'pow':
            e = A(0)
            return cw(lambda x: ppow(x, e), v)
        if name in SCALAR_FN:
            return cw(lambda x: sfun(name, x), v)
        if name == 'dot':
            b = self.val(a[0])
            if not isinstance(b, Arr):
                return opaque('dot')
            return asum(v.rows * v.cols, lambda k: v.lin(k) * b.lin(k))
        if name in ('sum', 'mean', 'norm', 'squaredNorm', 'trace'):
            if name == 'trace':
                return asum(v.rows, lambda k: v.f(k, k))
            fx = (lambda x: x) if name in ('sum', 'mean') else (lambda x: x * x)
            if v.cols == ONE or v.rows == ONE:
                s = asum(v.rows * v.cols, lambda k: fx(v.lin(k)))
            else:
                s = asum(v.rows, lambda i: asum(v.cols, lambda j: fx(v.f(i, j))))
            if name == 'mean':
                return s / (v.rows * v.cols)
            return ppow(s, P(T.Fraction(1, 2))) if name == 'norm' else s
        if name in ('maxCoeff', 'minCoeff', 'prod'):
            return self.reduce_atom(name, v)
        if name in ('isApprox', 'isZero', 'all', 'any', 'allFinite', 'hasNaN', 'isConstant', 'isIdentity', 'isOnes', 'isMuchSmallerThan'):
            return self.arr_pred(n, name, v)
        if name == 'count':
            return opaque('count')
        if name == 'triangularView' or name == 'ldlt' or name == 'inverse' or name == 'determinant':
            return NotImplemented
        if name == 'setFromTriplets':
            b, e = self.val(a[0]), self.val(a[1])
            self.write(obj, self.from_triplets(v, b, e))
            return Opq('void')
        return NotImplemented

    def from_triplets(self, v, b, e):
        parts = []
        for (si, s, off, cnt) in self.positions(b, e):
            parts.append((s, off, cnt))

        def f(i, j):
            r = ZERO
            for s, off, cnt in parts:
                if s[0] == 'one':
                    t = s[1]
                    r = r + ite(f_and(eq(t.d['row'], i), eq(t.d['col'], j)), t.d['value'], ZERO)
                else:
                    def body(k):
                        t = s[2](off + k)
                        g = s[3](off + k) if s[3] else TRUE
                        return ite(f_and(g, eq(t.d['row'], i), eq(t.d['col'], j)), t.d['value'], ZERO)
                    r = r + asum(cnt, body)
            return r
        return Arr(v.rows, v.cols, f)

    def small(self, v):
        """entries of an array of constant size, or None"""
        try:
            r, c = topoly(v.rows).is_const(), topoly(v.cols).is_const()
        except Unsupported:
            return None
        if not (r and c):
            return None
        r, c = int(topoly(v.rows).const()), int(topoly(v.cols).const())
        if r * c > 16 or r * c == 0:
            return None
        return [(P(i), P(j)) for i in range(r) for j in range(c)]

    def reduce_atom(self, name, v):
        sm = self.small(v)
        if sm:
            xs = [topoly(v.f(i, j)) for i, j in sm]
            r = xs[0]
            for x in xs[1:]:
                r = r * x if name == 'prod' else self.minmax([r, x], name[:3])
            return r
        bi, bj = fresh_bv('i'), fresh_bv('j')
        with under(le(ZERO, P(bi)), lt(P(bi), v.rows), le(ZERO, P(bj)), lt(P(bj), v.cols)):
            b = v.f(P(bi), P(bj) if v.cols != ONE else ZERO)
        if name == 'prod' and v.cols == ONE:
            return pprod(bi, v.rows, b)
        ci, cj = atom('bv', '#i'), atom('bv', '#j')
        return Poly.at(atom('reduce', name, v.rows, v.cols, subst(b, {bi: P(ci), bj: P(cj)})))

    def arr_pred(self, n, name, v):
        if name in ('all', 'any'):
            if ZERO in (v.rows, v.cols):
                return TRUE if name == 'all' else FALSE
            sm = self.small(v)
            if sm:
                xs = [tobool(v.f(i, j)) for i, j in sm]
                return T.f_and(*xs) if name == "all" else T.f_or(*xs)
        bi, bj = atom('bv', '#i'), atom('bv', '#j')
        x = v.f(P(bi), P(bj) if v.cols != ONE else ZERO)
        args = []
        for y in n['a']:
            w = self.val(y)
            if isinstance(w, Arr):
                args.append(w.f(P(bi), P(bj) if w.cols != ONE else ZERO))
            elif is_num(w):
                args.append(topoly(w))
        return batom('arrpred', name, v.rows, v.cols, x, *args)

    def tmpl_n(self, n):
        import re
        t = self.prog.ty(n.get('t'))['c']
        m = re.search(r', (\d+)>(?:::Type)?$', t)
        return P(int(m.group(1))) if m else opaque('template size')

    def partial_method(self, n, name, v):
        lv, kind = v.d['lv'].lv, v.d['kind']
        x = self.load(lv)
        if name in ('sum', 'mean', 'squaredNorm', 'norm'):
            fx = (lambda y: y) if name in ('sum', 'mean') else (lambda y: y * y)
            if kind == 'colwise':
                g = lambda i, j: asum(x.rows, lambda k: fx(x.f(k, j)))
                r, c, cnt = ONE, x.cols, x.rows
            else:
                g = lambda i, j: asum(x.cols, lambda k: fx(x.f(i, k)))
                r, c, cnt = x.rows, ONE, x.cols
            if name == 'mean':
                return Arr(r, c, lambda i, j: g(i, j) / cnt)
            if name == 'norm':
                return Arr(r, c, lambda i, j: ppow(g(i, j), P(T.Fraction(1, 2))))
            return Arr(r, c, g, x.arr)
        if name in ('maxCoeff', 'minCoeff', 'prod'):
            if kind == 'colwise':
                return Arr(ONE, x.cols, lambda i, j: self.reduce_atom(name, Arr(x.rows, ONE, lambda a, b: x.f(a, j))), x.arr)
            return Arr(x.rows, ONE, lambda i, j: self.reduce_atom(name, Arr(ONE, x.cols, lambda a, b: x.f(i, b))), x.arr)
        if name == 'reverse':
            if kind == 'colwise':
                fl = lambda i, j: (x.rows - 1 - i, j)
            else:
                fl = lambda i, j: (i, x.cols - 1 - j)
            return lv.sub(View(x.rows, x.cols, fl, lambda I, J: (TRUE,) + fl(I, J)))
        self.note(n, 'partial %s' % name)
        return Opq('partial')

    def in_range(self, i, n, what):
        """records an access that is certainly outside the object"""
        if not self.live:
            return
        d = n - i
        if (i.is_const() and i.const() < 0) or (d.is_const() and d.const() < (1 if what == 'index' else 0)):
            if not CTX[0].infeasible():
                self.oob.append((self.where(self.cur_node or {}), '%s %s of %s' % (what, T.show(i), T.show(n)), CTX[0]))

    def elem(self, lv, v, idx):
        if len(idx) == 1:
            self.in_range(idx[0], v.rows * v.cols, 'index')
        else:
            self.in_range(idx[0], v.rows, 'index')
            self.in_range(idx[1], v.cols, 'index')
        if len(idx) == 1:
            i = idx[0]
            if v.cols == ONE:
                return lv.sub(('ix', i, ZERO))
            if v.rows == ONE:
                return lv.sub(('ix', ZERO, i))
            q = cur().divide(i, v.rows)
            if q is None:
                q = idiv(i, v.rows)
            return lv.sub(('ix', i - q * v.rows, q))
        return lv.sub(('ix', idx[0], idx[1]))

    # ---------------------------------------------------------- operators
    def std_op(self, n, op):
        a = n['a']
        x = self.ev(a[0])
        if isinstance(x, Sel) and not isinstance(x.a, LV):
            pass
        v = self.load(x)
        if isinstance(v, Sel) and op in ('*', '->', '==', '!='):
            if op in ('*', '->'):
                r = self.deref(x)
                return r if op == '*' else self.ptr_of(r)
        if op == '()':
            if isinstance(v, Fn):
                return self.call_fn(v, [self.ev(y) for y in a[1:]], n)
            if isinstance(v, Arr):
                idx = [self.val(y) for y in a[1:]]
                if any(not is_num(y) for y in idx):
                    self.note(n, 'Eigen slicing')
                    return Opq('slice')
                return self.elem(self.as_lv(x), v, [topoly(y) for y in idx])
            if isinstance(v, Sel):
                return self.lift(v, lambda f: self.call_fn(f, [self.ev(y) for y in a[1:]], n))
            self.note(n, 'call operator of %r' % (v,))
            for y in a[1:]:
                self.ev(y)
            return Opq('()')
        if op == '[]':
            i = topoly(self.val(a[1]))
            if isinstance(v, Arr):
                return self.elem(self.as_lv(x), v, [i])
            if isinstance(v, Seq):
                return self.seq_index(self.as_lv(x), v, i)
            if isinstance(v, Rec) and v.cls == 'std::map' and isinstance(x, LV):
                k = self.map_key(i)
                if k not in v.d:
                    self.write(x.sub(('f', k)), Rec('std::pair', {'first': i, 'second': self.default_value(self.prog.ty(n.get('t')))}))
                return x.sub(('f', k)).sub(('f', 'second'))
            return Opq('[]')
        if op == '->':
            r = self.deref(x)
            return self.ptr_of(r)
        if op == '*' and len(a) == 1:
            return self.deref(x)
        if op in ('++', '--'):
            post = len(a) > 1
            if isinstance(v, It):
                new = self.it_step(v, 1 if op == '++' else -1)
                self.write(x, new)
                return v if post else x
            if isinstance(v, Rec) and v.cls == 'map_it':
                ks = self.map_keys(self.load(v.d['lv'].lv))
                if v.d['pos'].s in ks:
                    q = ks.index(v.d['pos'].s) + (1 if (op == '++') == (v.d['rev'].s == '') else -1)
                    self.write(x, Rec(v.cls, dict(v.d, pos=Str(ks[q] if 0 <= q < len(ks) else 'end'))))
                    return v if post else x
                if op == '--' and ks:
                    self.write(x, Rec(v.cls, dict(v.d, pos=Str(ks[-1] if v.d['rev'].s == '' else ks[0]))))
                    return v if post else x
                raise Unsupported('iterator of a map moved past its end')
            if isinstance(v, Rec) and v.cls == 'sparse_it' and op == '++':
                self.write(x, Rec(v.cls, dict(v.d, pos=topoly(v.d['pos']) + 1)))
                return x
            return Opq('atomic')
        if op == '=':
            return self.std_assign(n, x, v, a)
        if len(a) == 1:
            if op == '-':
                if isinstance(v, Arr):
                    return cw(lambda y: -y, v)
                if is_num(v):
                    return -topoly(v)
            if op == '!':
                return f_not(tobool(v))
            self.note(n, 'operator %s' % op)
            return Opq(op)
        y = self.ev(a[1])
        w = self.load(y)
        if op in ('==', '!=') and (isinstance(v, Arr) or isinstance(w, Arr)) and all(z.arr if isinstance(z, Arr) else is_num(z) for z in (v, w)):
            return self.arr_bin(op, v, w)
        if op in ('==', '!='):
            r = self.std_eq(v, w)
            if r is None:
                self.note(n, 'comparison')
                return bopaque('comparison')
            return r if op == '==' else f_not(r)
        if op == '<<' and (isinstance(v, Opq) or isinstance(v, Str)):
            return v
        if op == '<<' and isinstance(v, Arr):
            return self.comma(Rec('comma', {'lv': Ptr(x), 'items': ()}), w)
        if op == ',' and isinstance(v, Rec) and v.cls == 'comma':
            return self.comma(v, w)
        if isinstance(v, Str) or isinstance(w, Str):
            return Str()
        if isinstance(v, Rec) and v.cls == 'partial':
            return self.partial_op(n, op, v, w)
        if isinstance(v, It) or isinstance(w, It):
            if op in ('+', '-') and isinstance(w, Poly):
                return self.it_step(v, w if op == '+' else -w)
            if op in ('+=', '-='):
                nv = self.it_step(v, topoly(w) if op == '+=' else -topoly(w))
                self.write(x, nv)
                return x
            if op == '-' and isinstance(w, It):
                if isinstance(self.load(v.lv), Arr):
                    return v.off - w.off
                d = ZERO
                for (_, s, off, cnt) in self.positions(w, v):
                    d = d + (ONE if cnt is None else cnt)
                return d
            if op in ('<', '<=', '>', '>='):
                if isinstance(self.load(v.lv), Arr):
                    return self.arith(op, v.off, w.off, {}, {}, n)
        if op in ('<', '>', '<=', '>=') and is_num(v) and is_num(w):
            return self.arith(op, v, w, {}, {}, n)
        if op in ('+=', '-=', '*=', '/='):
            nv = self.arr_bin(op[0], v, w)
            if nv is None:
                if not isinstance(x, (LV, Sel)):
                    raise Unsupported('operator %s on an unknown target' % op)
                if not isinstance(v, Opq):
                    self.write(x, self.havoc_of(v))
                self.note(n, 'operator %s on %s' % (op, type(v).__name__))
                return x
            if isinstance(nv, Arr) and isinstance(v, Arr) and isinstance(w, Arr) and (op != '*=' or v.arr or w.arr):
                # the shape of the left-hand side stays as it is
                nv = Arr(v.rows, v.cols, nv.f, v.arr)
            self.write(x, nv)
            return x
        r = self.arr_bin(op, v, w)
        if r is None:
            self.note(n, 'operator %s on %s,%s' % (op, type(v).__name__, type(w).__name__))
            return Opq('operator %s' % op)
        return r

    def ptr_of(self, lv):
        if isinstance(lv, Sel):
            return self.mapsel(lv, lambda q: Ptr(self.as_lv(q)))
        return Ptr(self.as_lv(lv))

    def arr_bin(self, op, v, w):
        if isinstance(v, Rec) and v.cls == 'rawdata' and is_num(w):
            return Rec('rawdata', {'lv': v.d['lv'], 'off': v.d['off'] + (topoly(w) if op == '+' else -topoly(w))})
        va, wa = isinstance(v, Arr), isinstance(w, Arr)
        if op in ('<', '>', '<=', '>=', '==', '!=') and (va or wa) and all(x.arr for x in (v, w) if isinstance(x, Arr)):
            # coefficient-wise comparison: an array of truth values
            cf = {'==': eq, '!=': T.ne, '<': lt, '<=': le, '>': lambda a, b: lt(b, a), '>=': lambda a, b: le(b, a)}[op]
            tv = lambda a, b: ite(cf(a, b), ONE, ZERO)
            if va and wa:
                return cw2(tv, v, w, True)
            if va and is_num(w):
                return cw(lambda a: tv(a, topoly(w)), v)
            if wa and is_num(v):
                return cw(lambda a: tv(topoly(v), a), w)
            return None
        if not va and not wa:
            if is_num(v) and is_num(w):
                return self.arith(op, v, w, {}, {}, {})
            return None
        if va and wa:
            if op in ('+', '-'):
                return cw2((lambda a, b: a + b) if op == '+' else (lambda a, b: a - b), v, w)
            if op == '*':
                if v.arr or w.arr:
                    return cw2(lambda a, b: a * b, v, w, True)
                return matmul(v, w)
            if op == '/':
                return cw2(lambda a, b: a / b, v, w)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return None
            return None
        if va and is_num(w):
            c = topoly(w)
            return cw({'+': lambda a: a + c, '-': lambda a: a - c, '*': lambda a: a * c, '/': lambda a: a / c}[op], v) if op in '+-*/' else None
        if wa and is_num(v):
            c = topoly(v)
            return cw({'+': lambda a: a + c, '-': lambda a: c - a, '*': lambda a: a * c, '/': lambda a: c / a}[op], w) if op in '+-*/' else None
        return None

    def partial_op(self, n, op, v, w):
        lv, kind = v.d['lv'].lv, v.d['kind']
        x = self.load(lv)
        if not isinstance(w, Arr) or not isinstance(x, Arr):
            self.note(n, 'partial op')
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                if not isinstance(x, Opq):
                    self.write(lv, self.havoc_of(x))
                return lv
            return Opq('partial')
        vec = (lambda i, j: w.lin(i)) if kind == 'colwise' else (lambda i, j: w.lin(j))
        o = op[0]
        fn = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q, '/': lambda p, q: p / q}.get(o)
        nv = Arr(x.rows, x.cols, lambda i, j: fn(x.f(i, j), vec(i, j)), x.arr)
        if op.endswith('='):
            self.write(lv, nv)
            return lv
        return nv

    def comma(self, st, w):
        lv = st.d['lv'].lv
        items = st.d['items'] + (w,)
        base = self.load(lv)
        if not isinstance(base, Arr):
            return Opq('comma')
        # start from the array before the first item
        st2 = Rec('comma', {'lv': st.d['lv'], 'items': items})
        pos = st.d.get('pos', ZERO)
        if base.cols == ONE or base.rows == ONE:
            if is_num(w):
                self.write(self.elem(lv, base, [pos]), topoly(w))
                pos = pos + 1
            else:
                m = w.rows * w.cols
                sv = block_view(pos, ZERO, m, ONE, base.rows, base.cols) if base.cols == ONE else block_view(ZERO, pos, ONE, m, base.rows, base.cols)
                self.write(lv.sub(sv), self.shape_to(w, None, ONE) if base.cols == ONE else w)
                pos = pos + m
        elif is_num(w) and base.cols.is_const() and pos.is_const():
            c = int(base.cols.const())
            p = int(pos.const())
            self.write(lv.sub(('ix', P(p // c), P(p % c))), topoly(w))
            pos = pos + 1
        else:
            # scalars or blocks into a matrix of symbolic width
            if isinstance(w, Arr) and dec(eq(w.cols, base.cols)) is True:
                self.write(lv.sub(block_view(pos, ZERO, w.rows, w.cols, base.rows, base.cols)), w)
                pos = pos + w.rows
            else:
                self.note({}, 'comma initialiser')
                self.write(lv, self.havoc_of(base))
        st2.d['pos'] = pos
        return st2

    def std_assign(self, n, x, v, a):
        y = self.ev(a[1])
        w = self.load(y)
        lt_ = self.prog.ty(a[0].get('t'))
        rv = self.is_rvalue(a[1])
        if isinstance(v, Box) or isinstance(w, (Box,)):
            if isinstance(w, Ptr) and w.lv is None:
                self.write(x, Box(None))
            else:
                self.write(x, self.to_box(y))
            return x
        if isinstance(w, Seq):
            self.write(x, w)
            if rv and isinstance(y, LV) and not same(LV(y.root, y.path), x):
                self.moved_from(y, w)
            return x
        if isinstance(w, Arr) and (isinstance(v, Arr) or isinstance(v, Opq)):
            if isinstance(v, Arr) and isinstance(x, LV):
                r, k = self.fixed_dims(lt_)
                if x.path and isinstance(x.path[-1], View):
                    if v.cols == ONE and w.rows == ONE and w.cols != ONE:
                        w = self.shape_to(w, None, ONE)
                    elif v.rows == ONE and w.cols == ONE and w.rows != ONE:
                        w = self.shape_to(w, ONE, None)
                    self.write(x, w)
                    return x
                w2 = self.shape_to(w, r, k, v.arr)
                self.write(x, w2)
                return x
            self.write(x, w)
            return x
        if is_num(w) and isinstance(v, Arr):
            c = topoly(w)
            self.write(x, Arr(v.rows, v.cols, lambda i, j: c, v.arr))
            return x
        if isinstance(v, Rec) and v.cls == 'std::optional' and not (isinstance(w, Rec) and w.cls == 'std::optional'):
            self.write(x, Rec('std::optional', {'has': TRUE, 'v': w}))
            return x
        self.write(x, w)
        return x

    def std_eq(self, v, w):
        if isinstance(v, Sel):
            a, b = self.std_eq(v.a, w), self.std_eq(v.b, w)
            return None if a is None or b is None else f_ite(v.c, a, b)
        if isinstance(w, Sel):
            a, b = self.std_eq(v, w.a), self.std_eq(v, w.b)
            return None if a is None or b is None else f_ite(w.c, a, b)
        if isinstance(v, It) and isinstance(w, It):
            return self.it_eq(v, w)
        if isinstance(v, Rec) and isinstance(w, Rec) and v.cls == w.cls == 'map_it':
            return TRUE if v.d['pos'].s == w.d['pos'].s else FALSE
        if isinstance(v, (Ptr, Box)) or isinstance(w, (Ptr, Box)):
            return self.ptr_eq(v, w)
        if isinstance(v, Rec) and isinstance(w, Rec) and v.cls == w.cls == 'std::pair':
            a, b = self.std_eq(v.d['first'], w.d['first']), self.std_eq(v.d['second'], w.d['second'])
            return None if a is None or b is None else f_and(a, b)
        if is_num(v) and is_num(w):
            return eq(topoly(v), topoly(w))
        if isinstance(v, Str) and isinstance(w, Str):
            if v.s is not None and w.s is not None:
                return TRUE if v.s == w.s else FALSE
            return bopaque('string')
        if isinstance(v, Arr) and isinstance(w, Arr):
            if all(z.is_const() for z in (v.rows, v.cols, w.rows, w.cols)) and v.rows.const() * v.cols.const() <= 64:
                if not eq(v.rows, w.rows) is TRUE or not eq(v.cols, w.cols) is TRUE:
                    return bopaque('comparison of arrays of different shapes')
                return f_and(TRUE, *[eq(topoly(v.f(P(i), P(j))), topoly(w.f(P(i), P(j)))) for i in range(int(v.rows.const())) for j in range(int(v.cols.const()))])
            bi, bj = atom('bv', '#i'), atom('bv', '#j')
            return batom('arreq', v.rows, v.cols, v.f(P(bi), P(bj)) - w.f(P(bi), P(bj)))
        if isinstance(v, Fn) or isinstance(w, Fn):
            return FALSE
        return None
