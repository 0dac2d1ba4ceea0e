"""Value analysis: an abstract interpreter over the syntax trees produced by the
extractor.  Values live in the symbolic domain of term.py/values.py; control
flow joins build gated (ite) values, loops are summarised by closed forms."""
import itertools
from values import *
import values as V
import term as T

_root = itertools.count()
TRUE, FALSE = T.TRUE, T.FALSE


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.this = None
        self.returns = []
        self.loops = []


def same(a, b):
    """cheap identity of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Poly, Formula)):
        return a == b
    if isinstance(a, Arr):
        return a.f is b.f and a.rows == b.rows and a.cols == b.cols
    if isinstance(a, Rec):
        return a.cls == b.cls and a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, Box):
        return same(a.v, b.v)
    if isinstance(a, Abs):
        return a.kind == b.kind and a.key == b.key and a.moved == b.moved
    if isinstance(a, Ptr):
        return a.lv == b.lv
    if isinstance(a, LV):
        return a == b
    if isinstance(a, It):
        return a.lv == b.lv and a.seg == b.seg and a.off == b.off and a.rev == b.rev
    if isinstance(a, Seq):
        return len(a.segs) == len(b.segs) and all(seg_same(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Sel):
        return a.c == b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Fn):
        return a.m is not None and a.m == b.m
    if isinstance(a, (Str, Opq)):
        return True if isinstance(a, Str) else a.why == b.why
    return False


def seg_same(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] == 'one':
        return same(x[1], y[1])
    if x[0] == 'gen':
        if x[1] != y[1] or (x[3] is None) != (y[3] is None):
            return False
        if x[2] is not y[2]:
            bv = P(fresh_bv('s'))
            if not same(x[2](bv), y[2](bv)):
                return False
        if x[3] is not None and x[3] is not y[3]:
            bv = P(fresh_bv('s'))
            if x[3](bv) != y[3](bv):
                return False
        return True
    return x == y


class Machine:
    def __init__(self, prog):
        self.prog = prog
        self.store = {}
        self.pc = ()
        self.live = True
        self.throws = []       # (pc, exception type, where)
        self.frames = []
        self.log = []          # unsupported constructs that were over-approximated
        self.visited = set()   # mangled names analysed
        self.ncalls = 0
        self.handlers = {}     # q -> python handler(machine, node, obj, args)
        self.absmodels = {}    # kind -> model object
        self.depth = 0
        self.globals = {}
        self.freed = []
        self.trace_calls = None
        self.warn = []
        self.oob = []
        self.cur_node = None
        self.on_throw = None

    # ------------------------------------------------------------ states
    def snap(self):
        return (dict(self.store), self.pc, CTX[0], self.live)

    def restore(self, s):
        self.store, self.pc, CTX[0], self.live = dict(s[0]), s[1], s[2], s[3]

    def assume(self, f):
        if f.k == 'true':
            return
        if f.k == 'false':
            self.live = False
            return
        self.pc = self.pc + (f,)
        CTX[0] = CTX[0].plus(f)

    def fact(self, f):
        """background fact: no path condition"""
        CTX[0] = CTX[0].plus(f)

    def merge2(self, c, sa, sb):
        """join of two live snapshots; c discriminates (true for sa)"""
        store = {}
        for r in sa[0]:
            if r in sb[0]:
                a, b = sa[0][r], sb[0][r]
                store[r] = a if a is b else self.mv(c, a, b)
        for r, v in list(sa[0].items()) + list(sb[0].items()):
            if r not in store and isinstance(r, tuple) and r[0] == 'heap':
                store[r] = v
        self.store = store
        pa, pb = sa[1], sb[1]
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
            i += 1
        ra, rb = f_and(*pa[i:]), f_and(*pb[i:])
        o = f_or(ra, rb)
        if o.k != 'true' and f_not(ra) == rb:
            o = TRUE
        self.pc = pa[:i] + ((o,) if o.k != 'true' else ())
        fb = set(sb[2].facts)
        common = [f for f in sa[2].facts if f in fb]
        CTX[0] = Ctx(common) if len(common) < len(sa[2].facts) else sa[2]
        if o.k != 'true':
            CTX[0] = CTX[0].plus(o)
        self.live = True

    def mv(self, c, a, b):
        if same(a, b):
            return a
        if c.k == 'true':
            return a
        if c.k == 'false':
            return b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, Formula) and isinstance(b, Formula):
            return f_ite(c, a, b)
        if is_num(a) and is_num(b):
            return ite(c, topoly(a), topoly(b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            fa, fb = a.f, b.f
            return Arr(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols),
                       lambda i, j: gite(c, lambda: fa(i, j), lambda: fb(i, j)), a.arr)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and a.d.keys() == b.d.keys():
            return Rec(a.cls, {k: self.mv(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, Box) and isinstance(b, Box) and a.v is not None and b.v is not None:
            return Box(self.mv(c, a.v, b.v))
        if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind and a.key == b.key:
            return Abs(a.kind, a.key, True)
        if isinstance(a, Seq) and isinstance(b, Seq):
            r = self.mv_seq(c, a, b)
            if r is not None:
                return r
        if isinstance(a, Opq) or isinstance(b, Opq):
            return a if isinstance(a, Opq) else b
        if isinstance(a, Str) and isinstance(b, Str):
            return Str()
        return Sel(c, a, b)

    def mv_seq(self, c, a, b):
        x, y = a.segs, b.segs
        i = 0
        while i < len(x) and i < len(y) and seg_same(x[i], y[i]):
            i += 1
        j = 0
        while j < len(x) - i and j < len(y) - i and seg_same(x[-1 - j], y[-1 - j]):
            j += 1
        xm, ym = x[i:len(x) - j], y[i:len(y) - j]
        if len(xm) == 1 and len(ym) == 1 and xm[0][0] == ym[0][0] == 'one':
            mid = [('one', self.mv(c, xm[0][1], ym[0][1]))]
        elif len(xm) == len(ym) and all(p[0] == q[0] == 'one' for p, q in zip(xm, ym)):
            mid = [('one', self.mv(c, p[1], q[1])) for p, q in zip(xm, ym)]
        elif len(xm) == 1 and len(ym) == 1 and xm[0][0] == ym[0][0] == 'gen' and xm[0][1] == ym[0][1] \
                and xm[0][3] is None and ym[0][3] is None:
            ta, tb = xm[0][2], ym[0][2]
            mid = [('gen', xm[0][1], lambda i: self.mv(c, ta(i), tb(i)), None)]
        elif all(s[0] in ('one', 'gen') for s in xm + ym):
            mid = [self.guarded(s, c) for s in xm] + [self.guarded(s, f_not(c)) for s in ym]
        else:
            return None
        return Seq(x[:i] + tuple(mid) + x[len(x) - j:])

    def guarded(self, s, c):
        if s[0] == 'one':
            v = s[1]
            return ('gen', ONE, lambda i: v, lambda i: c)
        g = s[3]
        return ('gen', s[1], s[2], (lambda i: f_and(c, g(i))) if g else (lambda i: c))

    def branch(self, c, fa, fb):
        """run two alternatives and join; returns the joined value"""
        v = dec(c)
        if v is True:
            return fa()
        if v is False:
            return fb()
        s0 = self.snap()
        self.assume(c)
        a = b = None
        try:
            a = fa()
        except Dead:
            self.live = False
        sa = self.snap()
        self.restore(s0)
        self.assume(f_not(c))
        try:
            b = fb()
        except Dead:
            self.live = False
        sb = self.snap()
        if sa[3] and sb[3]:
            self.merge2(c, sa, sb)
            if a is None or b is None:
                return a if b is None else b
            return self.mvx(c, a, b)
        if sa[3]:
            self.restore(sa)
            return a
        if sb[3]:
            return b
        self.live = False
        raise Dead()

    def mvx(self, c, a, b):
        if isinstance(a, LV) or isinstance(b, LV):
            if same(a, b):
                return a
            return Sel(c, a, b)
        return self.mv(c, a, b)

    def lift(self, v, fn):
        """apply fn to a value, distributing over undecided choices"""
        if isinstance(v, Sel):
            return self.branch(v.c, lambda: self.lift(v.a, fn), lambda: self.lift(v.b, fn))
        return fn(v)

    # ------------------------------------------------------------ memory
    def new_root(self, tag='t'):
        return (tag, next(_root))

    def temp(self, v, tag='t'):
        r = self.new_root(tag)
        self.store[r] = v
        return LV(r)

    def load(self, x):
        if isinstance(x, LV):
            return self.read(x)
        if isinstance(x, Sel) and (isinstance(x.a, (LV, Sel)) or isinstance(x.b, (LV, Sel))):
            return self.mvsel(x, self.load)
        return x

    def mvsel(self, x, fn):
        v = dec(x.c)
        if v is True:
            return fn(x.a)
        if v is False:
            return fn(x.b)
        a = b = None
        err = None
        try:
            with under(x.c):
                if CTX[0].infeasible():
                    return fn(x.b)
                a = fn(x.a)
        except (PastEnd, NullDeref) as e:
            err = e
        try:
            with under(f_not(x.c)):
                if CTX[0].infeasible():
                    return fn(x.a)
                b = fn(x.b)
        except (PastEnd, NullDeref) as e:
            if err is not None:
                raise
            err = e
        if err is not None:
            self.warn.append((str(err), self.pc, x.c))
            return a if a is not None else b
        return self.mv(x.c, a, b)

    def read(self, lv):
        if lv.root not in self.store:
            if lv.root[0] == 'g':
                self.init_global(lv.root)
            else:
                raise Unsupported('read of a dead object %r' % (lv,))
        v = self.store[lv.root]
        for p in lv.path:
            v = self.step(v, p, lv)
        return v

    def step(self, v, p, lv=None):
        if isinstance(v, Sel):
            return self.mvsel(v, lambda y: self.step(y, p, lv))
        if isinstance(v, Opq):
            return Opq(v.why)
        if isinstance(p, View):
            if not isinstance(v, Arr):
                raise Unsupported('view of %r' % (v,))
            f, fwd = v.f, p.fwd
            return Arr(p.rows, p.cols, lambda i, j: f(*fwd(i, j)), v.arr if p.arr is None else p.arr)
        t = p[0]
        if t == 'f':
            if isinstance(v, Rec):
                if p[1] in v.d:
                    return v.d[p[1]]
                raise Unsupported('field %s of %s not initialised' % (p[1], v.cls))
            if isinstance(v, Abs):
                return self.absmodels[v.kind].field(self, v, p[1])
            raise Unsupported('field %s of %r' % (p[1], v))
        if t == 'box':
            if isinstance(v, Box):
                if v.v is None:
                    raise NullDeref('null owning pointer dereferenced')
                return v.v
            if isinstance(v, Ptr):
                if v.lv is None:
                    raise NullDeref('null pointer dereferenced')
                return self.read(v.lv)
            raise Unsupported('deref of %r' % (v,))
        if t == 'el':
            return self.seq_get(v, p[1], p[2])
        if t == 'ix':
            if isinstance(v, Arr):
                return v.f(p[1], p[2])
            raise Unsupported('index of %r' % (v,))
        raise Unsupported('path %r' % (p,))

    def seq_get(self, v, seg, off):
        if not isinstance(v, Seq):
            raise Unsupported('element of %r' % (v,))
        if seg >= len(v.segs):
            raise PastEnd('element past the end')
        s = v.segs[seg]
        if s[0] == 'one':
            return s[1]
        if s[0] == 'gen':
            return s[2](off)
        raise Unsupported('element of loop-carried sequence')

    def write(self, lv, val):
        if isinstance(lv, Sel):
            self.branch(lv.c, lambda: self.write(lv.a, val), lambda: self.write(lv.b, val))
            return
        if isinstance(lv, Tie):
            if isinstance(val, LV):
                val = self.load(val)
            if not isinstance(val, Rec) or len(val.d) != len(lv.lvs):
                raise Unsupported('tie from %r' % (val,))
            ks = ['first', 'second'] if 'first' in val.d else sorted(val.d, key=int)
            for k, x in zip(ks, lv.lvs):
                if x is not None:
                    self.write(x, val.d[k])
            return
        if not isinstance(lv, LV):
            raise Unsupported('write to %r' % (lv,))
        if lv.root[0] == 'unknown':
            raise Unsupported('write through an untracked pointer or reference')
        if lv.root[0] == 'g' and lv.root not in self.store:
            self.init_global(lv.root)
        if lv.root not in self.store:
            raise Unsupported('write to dead object')
        self.store[lv.root] = self.upd(self.store[lv.root], lv.path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(v, Sel):
            return Sel(v.c, self.upd(v.a, path, val), self.upd(v.b, path, val))
        if isinstance(p, View):
            if not isinstance(v, Arr):
                return Opq('write through a view of unknown')
            sub = self.step(v, p)
            nv = self.upd(sub, path[1:], val)
            return self.view_write(v, p, nv)
        t = p[0]
        if t == 'f':
            if isinstance(v, Abs):
                raise Unsupported('write to field of abstract object')
            if not isinstance(v, Rec):
                return Opq('field write of unknown')
            if len(path) == 1:
                return v.set(p[1], val)
            if p[1] not in v.d:
                raise Unsupported('field %s not initialised' % p[1])
            return v.set(p[1], self.upd(v.d[p[1]], path[1:], val))
        if t == 'box':
            if isinstance(v, Box):
                if v.v is None:
                    raise NullDeref('null owning pointer written')
                return Box(self.upd(v.v, path[1:], val))
            if isinstance(v, Ptr):
                self.write(LV(v.lv.root, v.lv.path + path[1:]), val)
                return v
            raise Unsupported('write through %r' % (v,))
        if t == 'el':
            s = v.segs[p[1]]
            if s[0] == 'one':
                ns = ('one', self.upd(s[1], path[1:], val))
            elif s[0] == 'gen':
                idx, tm = p[2], s[2]
                new = self.upd(tm(idx), path[1:], val)

                def tmpl(i, tm=tm, idx=idx, new=new):
                    return self.mv(eq(i, idx), new, tm(i))
                ns = ('gen', s[1], tmpl, s[3])
            else:
                raise Unsupported('write in loop-carried sequence')
            return Seq(v.segs[:p[1]] + (ns,) + v.segs[p[1] + 1:])
        if t == 'ix':
            if not isinstance(v, Arr):
                return Opq('element write of unknown')
            i0, j0, f = p[1], p[2], v.f
            nv = self.upd(f(i0, j0), path[1:], val) if len(path) > 1 else topoly(val)
            one_r, one_c = v.rows == ONE, v.cols == ONE

            def g(i, j):
                cs = []
                if not one_r:
                    cs.append(eq(i, i0))
                if not one_c:
                    cs.append(eq(j, j0))
                return gite(f_and(*cs), lambda: nv, lambda: f(i, j))
            return Arr(v.rows, v.cols, g, v.arr)
        raise Unsupported('path %r' % (p,))

    def view_write(self, base, view, nv):
        f = base.f
        if not isinstance(nv, Arr):
            if is_num(nv):
                c = topoly(nv)
                nv = Arr(view.rows, view.cols, lambda i, j: c)
            else:
                return Opq('unknown written through view')
        g, inv = nv.f, view.inv

        def h(I, J):
            c, i, j = inv(I, J)
            return gite(c, lambda: g(i, j), lambda: f(I, J))
        return Arr(base.rows, base.cols, h, base.arr)

    def init_global(self, root):
        q = root[1]
        v = self.prog.vars.get(q)
        self.store[root] = Opq('global %s' % q)
        if v is not None and v.get('init') is not None:
            t = self.prog.ty(v['t'])
            fr = Frame(None)
            self.frames.append(fr)
            try:
                x = self.val(v['init'])
                self.store[root] = x if t.get('const') or v.get('constexpr') else self.coerce(x, t)
            except Unsupported:
                pass
            finally:
                self.frames.pop()
        return self.store[root]

    # ------------------------------------------------------------ statements
    @property
    def fr(self):
        return self.frames[-1] if self.frames else self.frame0

    frame0 = Frame(None)

    def exec(self, n):
        if n is None or not self.live:
            return
        k = n['k']
        m = getattr(self, 's_' + k, None)
        try:
            if m is not None:
                m(n)
            else:
                self.ev(n)
        except Dead:
            self.live = False

    def s_block(self, n):
        for s in n['s']:
            if not self.live:
                return
            self.exec(s)

    def s_nullstmt(self, n):
        pass

    def s_decl(self, n):
        for d in n['d']:
            self.declare(d)

    def declare(self, d):
        t = self.prog.ty(d.get('t'))
        if d.get('k') not in (None, 'var') or 'id' not in d:
            return
        if d.get('staticlocal') or d.get('static'):
            fn = self.fr.fn or {}
            root = ('g', 'static:%s:%s:%s' % (fn.get('m') if isinstance(fn, dict) else '', d.get('n'), d['id']))
            if root not in self.store:
                # the state at first use; rules on histories run several calls in one machine
                try:
                    v = self.evinit(d['init'], t) if d.get('init') else self.default_value(t)
                    self.store[root] = self.coerce(self.copyval(v) if isinstance(v, LV) else v, t)
                except Unsupported:
                    self.store[root] = Opq('static local')
            self.fr.env[d['id']] = LV(root)
            return
        init = d.get('init')
        if t.get('ref') or t.get('rref'):
            x = self.ev(init)
            if not isinstance(x, (LV, Sel)):
                x = self.temp(x)
            elif isinstance(x, Sel) and not isinstance(x.a, (LV, Sel)):
                x = self.temp(x)
            self.fr.env[d['id']] = x
            self.bind(d, x)
            return
        if init is None:
            v = self.default_value(t)
        else:
            v = self.evinit(init, t)
        if isinstance(v, LV):
            # alias types (Eigen::Ref, Eigen::Map, auto of an Eigen expression)
            if self.is_alias_type(t) or (t.get('rec') or '').startswith('Eigen::') and not self.is_dense(t):
                self.fr.env[d['id']] = v
                self.bind(d, v)
                return
            v = self.copyval(v)
        lv = self.temp(self.coerce(v, t), 'l')
        self.fr.env[d['id']] = lv
        self.bind(d, lv)

    def bind(self, d, lv):
        for i, b in enumerate(d.get('bindings') or []):
            v = self.load(lv)
            if isinstance(v, Rec):
                names = list(v.d)
                self.fr.env[b['id']] = lv.sub(('f', names[i]))

    def is_alias_type(self, t):
        return any(x in t['c'] for x in ('Eigen::Ref<', 'Eigen::Map<', 'Eigen::Block<', 'Eigen::VectorBlock<')) \
            and 'Eigen::Matrix<' != t['c'][:14]

    def is_dense(self, t):
        r = t.get('rec') or ''
        return r in ('Eigen::Matrix', 'Eigen::Array') or t['c'].startswith(('Eigen::Matrix<', 'Eigen::Array<', 'const Eigen::Matrix<'))

    def coerce(self, v, t):
        c = t.get('cls')
        if c == 'bool' and isinstance(v, Poly):
            return tobool(v)
        if c in ('int', 'uint', 'float') and isinstance(v, Formula):
            return topoly(v)
        if c in ('float', 'int', 'uint') and isinstance(v, Arr) and v.rows == ONE and v.cols == ONE:
            return v.f(ZERO, ZERO)
        return v

    def default_value(self, t):
        c = t.get('cls')
        if c in ('int', 'uint', 'float', 'enum'):
            return Poly.at(atom('uninit', next(_root)))
        if c == 'bool':
            return batom('uninit', next(_root))
        if c == 'ptr':
            return Opq('uninitialised pointer')
        if c == 'rec':
            return self.std_default(t)
        if c == 'array':
            return self.uninit_arr(*self.array_dims(t))
        return Opq('uninitialised')

    def array_dims(self, t):
        import re
        d = re.findall(r'\[(\d+)\]', t['c'])
        if not d:
            return opaque('array size'), ONE
        return P(int(d[0])), (P(int(d[1])) if len(d) > 1 else ONE)

    def uninit_arr(self, r, c, arr=False):
        u = next(_root)
        return Arr(r, c, lambda i, j: Poly.at(atom('uninit', u, i, j)), arr)

    def std_default(self, t):
        c = t['c'].replace('const ', '')
        if c.startswith(('Eigen::Matrix<', 'Eigen::Array<')):
            r, k = self.fixed_dims(t)
            return self.uninit_arr(r if r is not None else ZERO, k if k is not None else ZERO, c.startswith('Eigen::Array<'))
        if c.startswith(('std::list<', 'std::vector<', 'std::__cxx11::list<', 'std::deque<')):
            return self.empty_seq(t)
        if c.startswith('std::unique_ptr<') or c.startswith('std::shared_ptr<'):
            return Box(None)
        if c.startswith(('std::map<', 'std::unordered_map<')):
            return Rec('std::map', {})
        if c.startswith('std::pair<'):
            ta = t.get('targs') or []
            return Rec('std::pair', {'first': self.zero_of(ta[0] if ta else None), 'second': self.zero_of(ta[1] if len(ta) > 1 else None)})
        if 'basic_string<' in c:
            return Str('')
        if c.startswith('std::optional<'):
            return Rec('std::optional', {'has': FALSE, 'v': Opq('empty optional')})
        if c.startswith(('std::_List_', '__gnu_cxx::__normal_iterator')):
            return Opq('singular iterator')
        if c.startswith('Eigen::Sparse'):
            return self.uninit_arr(ZERO, ZERO) if c.startswith('Eigen::SparseMatrix') else Rec(c.split('<')[0], {})
        if c.startswith('std::array<'):
            import re
            mm = re.match(r'std::array<.*, (\d+)>$', c)
            if mm:
                return self.uninit_arr(P(int(mm.group(1))), ONE)
        return Opq('default %s' % c[:40])

    def zero_of(self, ti):
        if ti is None:
            return Opq('value')
        t = self.prog.ty(ti) if isinstance(ti, int) else ti
        if t.get('cls') in ('int', 'uint', 'float', 'enum'):
            return ZERO
        if t.get('cls') == 'bool':
            return FALSE
        return self.default_value(t)

    def empty_seq(self, t):
        ta = t.get('targs') or []
        et = self.prog.ty(ta[0]) if ta and isinstance(ta[0], int) else None
        if et is not None and et.get('cls') in ('int', 'uint', 'float', 'bool'):
            return Arr(ZERO, ONE, lambda i, j: opaque('element of empty vector'))
        return Seq()

    def fixed_dims(self, t):
        """(rows, cols) with None for dynamic"""
        import re
        m = re.search(r'Eigen::(?:Matrix|Array)<[^<>]*?, (-?\d+), (-?\d+)', t['c'])
        if not m:
            return None, None
        r, c = int(m.group(1)), int(m.group(2))
        return (None if r < 0 else P(r)), (None if c < 0 else P(c))

    def s_if(self, n):
        if n.get('init'):
            self.exec(n['init'])
        if n.get('cv'):
            for d in ([n['cv']] if isinstance(n['cv'], dict) else n['cv']):
                self.declare(d) if d.get('k') == 'var' else self.exec(d)
        c = tobool(self.val(n['c']))
        self.split(c, lambda: self.exec(n['a']), lambda: self.exec(n.get('b')))

    def split(self, c, fa, fb):
        v = dec(c)
        if v is True:
            fa()
            return
        if v is False:
            fb()
            return
        s0 = self.snap()
        self.assume(c)
        fa()
        sa = self.snap()
        self.restore(s0)
        self.assume(f_not(c))
        fb()
        sb = self.snap()
        if sa[3] and sb[3]:
            self.merge2(c, sa, sb)
        elif sa[3]:
            self.restore(sa)

    def s_return(self, n):
        v = None
        if n.get('e') is not None:
            f = self.fr.fn
            rt = self.prog.ty(f['rt']) if f and 'rt' in f else {}
            if rt.get('ref') or rt.get('rref'):
                v = self.ev(n['e'])
                if not isinstance(v, (LV, Sel)):
                    v = self.temp(v)
            else:
                v = self.evinit(n['e'], rt)
                if isinstance(v, LV) or isinstance(v, Sel):
                    if isinstance(v, LV) and (rt.get('rec') or '').startswith('Eigen::') and not self.is_dense(rt):
                        pass
                    else:
                        v = self.copyval(v)
                if rt:
                    v = self.coerce(v, rt)
        self.fr.returns.append((v, self.snap()))
        self.live = False

    def s_break(self, n):
        self.fr.loops[-1]['breaks'].append(self.snap())
        self.live = False

    def s_continue(self, n):
        for l in reversed(self.fr.loops):
            if not l.get('switch'):
                l['continues'].append(self.snap())
                break
        self.live = False

    def s_throw(self, n):
        self.ev(n)

    def e_throw(self, n):
        et = self.prog.ty(n.get('et')) if n.get('et') is not None else {'s': '?'}
        self.throws.append((self.pc, et.get('c', et['s']).replace('const ', ''), self.where(n), [f['q'] if f else '?' for f in (x.fn for x in self.frames)]))
        if self.on_throw:
            self.on_throw(self)
        self.live = False
        raise Dead()

    def where(self, n):
        for fr in reversed(self.frames):
            if fr.fn:
                return '%s:%s' % (fr.fn['file'].replace('/repo/', ''), n.get('l', fr.fn['l']))
        return '?'

    def s_try(self, n):
        self.exec(n.get('body') or n.get('s'))

    def s_switch(self, n):
        if n.get('init'):
            self.exec(n['init'])
        v = self.val(n['c'])
        body = n['body']['s'] if n['body']['k'] == 'block' else [n['body']]
        # flatten the case labels
        labels, stmts = [], []
        for s in body:
            while s['k'] in ('case', 'default'):
                labels.append((s, len(stmts)))
                s = s['s'] if isinstance(s.get('s'), dict) else s.get('body')
                if s is None:
                    break
            if s is not None:
                stmts.append(s)
        v = topoly(v)
        info = {'breaks': [], 'continues': [], 'switch': True}
        self.fr.loops.append(info)
        cases = []
        default = None
        for lab, pos in labels:
            if lab['k'] == 'default':
                default = pos
            else:
                cases.append((topoly(self.val(lab.get('v') or lab.get('e') or lab['lhs'])), pos))

        def run_from(pos):
            for s in stmts[pos:]:
                if not self.live:
                    return
                self.exec(s)

        def go(i):
            if i == len(cases):
                if default is not None:
                    run_from(default)
                return
            self.split(eq(v, cases[i][0]), lambda: run_from(cases[i][1]), lambda: go(i + 1))
        go(0)
        self.fr.loops.pop()
        self.rejoin(info['breaks'])

    def rejoin(self, snaps):
        """join the current state with saved ones"""
        cur_ = [self.snap()] if self.live else []
        alls = snaps + cur_
        if not alls:
            self.live = False
            return
        self.restore(alls[0])
        for s in alls[1:]:
            c = self.pc_diff(self.pc, s[1])
            self.merge2(c, self.snap(), s)

    def pc_diff(self, pa, pb):
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
            i += 1
        return f_and(*pa[i:]) if pa[i:] else f_not(f_and(*pb[i:]))

    # loops are in loops.py (mixed in)

    # ------------------------------------------------------------ expressions
    def val(self, n):
        return self.load(self.ev(n))

    def ev(self, n):
        if 'l' in n:
            self.cur_node = n
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            self.note(n, 'expression kind %s' % n['k'])
            return Opq(n['k'])
        return m(n)

    def evinit(self, n, t):
        if n['k'] == 'initlist':
            return self.build_initlist(n, t)
        return self.ev(n)

    def note(self, n, what):
        s = '%s %s' % (self.where(n), what)
        if s not in self.log:
            self.log.append(s)

    def e_int(self, n):
        return Poly.c(int(n['v']))

    def e_float(self, n):
        from fractions import Fraction
        v = n['v']
        try:
            return Poly.c(Fraction(str(v)))
        except Exception:
            return Poly.c(Fraction(float(v)).limit_denominator(10**15))

    def e_bool(self, n):
        return TRUE if n['v'] in (True, 1, '1', 'true') else FALSE

    def e_str(self, n):
        return Str(n.get('v'))

    def e_null(self, n):
        return Ptr(None)

    def e_this(self, n):
        return Ptr(self.fr.this)

    def e_unknown(self, n):
        return Opq('unknown')

    def e_ref(self, n):
        dk = n['dk']
        if dk == 'fn':
            return Fn(n.get('m') or (n.get('fn') or {}).get('m') or n.get('q'))
        if dk == 'enum':
            return Poly.c(int(n['v']))
        if dk in ('param', 'local', 'binding', 'staticlocal'):
            if n['id'] in self.fr.env:
                return self.fr.env[n['id']]
            if dk == 'staticlocal':
                return LV(('g', n.get('q') or n['n']))
            return Opq('unbound %s' % n['n'])
        if dk == 'global':
            return LV(('g', n['q']))
        return Opq('ref %s' % dk)

    def e_mem(self, n):
        b = self.ev(n['b'])
        if not n.get('field'):
            if n.get('static'):
                return LV(('g', n['q']))
            return Opq('member function')
        if n.get('arrow'):
            b = self.deref(b)
        if isinstance(b, Sel):
            return self.mapsel(b, lambda x: self.as_lv(x).sub(('f', n['n'])))
        return self.as_lv(b).sub(('f', n['n']))

    def mapsel(self, s, fn):
        if not isinstance(s, Sel):
            return fn(s)
        v = dec(s.c)
        if v is None:
            with under(s.c):
                if CTX[0].infeasible():
                    v = False
        if v is None:
            with under(f_not(s.c)):
                if CTX[0].infeasible():
                    v = True
        if v is True:
            return self.mapsel(s.a, fn)
        if v is False:
            return self.mapsel(s.b, fn)
        a = b = err = None
        try:
            with under(s.c):
                a = self.mapsel(s.a, fn)
        except (PastEnd, NullDeref) as e:
            err = e
        try:
            with under(f_not(s.c)):
                b = self.mapsel(s.b, fn)
        except (PastEnd, NullDeref) as e:
            if err is not None:
                raise
            err = e
        if err is not None:
            self.warn.append((str(err), self.pc, s.c))
            return a if a is not None else b
        return Sel(s.c, a, b)

    def as_lv(self, x):
        if isinstance(x, LV):
            return x
        return self.temp(x, 'unknown') if isinstance(x, Opq) else self.temp(x)

    def deref(self, x):
        """lvalue designated by a pointer-like value"""
        if isinstance(x, Sel):
            return self.mapsel(x, self.deref)
        v = self.load(x)
        if isinstance(v, Sel):
            if isinstance(x, LV) and not isinstance(v.a, It) and not isinstance(v.b, It):
                return x.sub(('box',))
            return self.mapsel(v, self.deref)
        if isinstance(v, Ptr):
            if v.lv is None:
                raise NullDeref('null pointer dereferenced at %s' % self.where({}))
            return v.lv
        if isinstance(v, Box):
            return self.as_lv(x).sub(('box',))
        if isinstance(v, It):
            return self.it_lv(v)
        if isinstance(v, Rec) and 'has' in v.d:
            return self.as_lv(x).sub(('f', 'v'))
        if isinstance(v, Rec) and v.cls == 'map_it' and v.d['pos'].s != 'end':
            return v.d['lv'].lv.sub(('f', v.d['pos'].s))
        if isinstance(v, Opq):
            return self.temp(Opq(v.why), 'unknown')
        raise Unsupported('deref of %r at %s' % (v, self.where({})))

    def e_un(self, n):
        op = n['op']
        if op == '*':
            return self.deref(self.ev(n['e']))
        if op == '&':
            x = self.ev(n['e'])
            if isinstance(x, Fn):
                return x
            return Ptr(self.as_lv(x))
        if op in ('++', '--'):
            lv = self.ev(n['e'])
            old = self.load(lv)
            if isinstance(old, Ptr):
                new = Opq('pointer arithmetic')
            elif isinstance(old, It):
                new = self.it_step(old, 1 if op == '++' else -1)
            else:
                o = topoly(old)
                new = o + 1 if op == '++' else o - 1
            self.write(lv, new)
            return old if n.get('post') else lv
        v = self.val(n['e'])
        if op == '!':
            return f_not(tobool(v))
        if op == '-':
            return -topoly(v)
        if op == '+':
            return topoly(v)
        if op == '~':
            return opaque('~')
        self.note(n, 'unary %s' % op)
        return Opq('unary')

    def e_bin(self, n):
        op = n['op']
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op == '=':
            lv = self.ev(n['a'])
            v = self.val(n['b'])
            self.write(lv, self.coerce(v, self.prog.ty(n['a'].get('t'))))
            return lv
        if op in ('&&', '||'):
            a = tobool(self.val(n['a']))
            d = dec(a)
            if op == '&&':
                if d is False:
                    return FALSE
                if d is True:
                    return tobool(self.val(n['b']))
            else:
                if d is True:
                    return TRUE
                if d is False:
                    return tobool(self.val(n['b']))
            s0 = self.snap()
            cond = a if op == '&&' else f_not(a)
            return tobool(self.branch(cond, lambda: tobool(self.val(n['b'])), lambda: FALSE if op == '&&' else TRUE))
        a, b = self.val(n['a']), self.val(n['b'])
        return self.arith(op, a, b, self.prog.ty(n['a'].get('t')), self.prog.ty(n['b'].get('t')), n)

    def arith(self, op, a, b, ta, tb, n):
        if isinstance(a, Sel):
            return self.lift(a, lambda x: self.arith(op, x, b, ta, tb, n))
        if isinstance(b, Sel):
            return self.lift(b, lambda x: self.arith(op, a, x, ta, tb, n))
        if isinstance(a, It) or isinstance(b, It):
            return self.it_arith(op, a, b, n)
        if isinstance(a, (Ptr, Box)) or isinstance(b, (Ptr, Box)):
            if op in ('==', '!='):
                r = self.ptr_eq(a, b)
                return r if op == '==' else f_not(r)
            return Opq('pointer arithmetic')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, Formula) and isinstance(b, Formula) and op in ('==', '!='):
                r = f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
                return r if op == '==' else f_not(r)
            if isinstance(a, Opq) or isinstance(b, Opq):
                return bopaque('compare')
            x, y = topoly(a), topoly(b)
            return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': lambda p, q: lt(q, p), '>=': lambda p, q: le(q, p)}[op](x, y)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return opaque('arith')
        x, y = topoly(a), topoly(b)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if ta.get('cls') in ('int', 'uint', 'enum', 'bool') and tb.get('cls') in ('int', 'uint', 'enum', 'bool'):
                return self.divq(x, y)
            return x / y
        if op == '%':
            q = cur().divide(x, y)
            return x - q * y if q is not None else imod(x, y)
        if op == '<<' and y.is_const():
            return x * Poly.c(2 ** int(y.const()))
        self.note(n, 'binary %s' % op)
        return opaque('binary %s' % op)

    def divq(self, x, y):
        q = cur().divide(x, y)
        return q if q is not None else idiv(x, y)

    def ptr_eq(self, a, b):
        def isnull(x):
            return (isinstance(x, Ptr) and x.lv is None) or (isinstance(x, Box) and x.v is None)
        if isnull(a) or isnull(b):
            if isinstance(a, Opq) or isinstance(b, Opq):
                return bopaque('ptr')
            return TRUE if isnull(a) and isnull(b) else FALSE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return TRUE if a.lv == b.lv else FALSE
        return bopaque('pointer comparison')

    def e_cassign(self, n):
        lv = self.ev(n['a'])
        op = n['op'][:-1]
        b = self.val(n['b'])
        a = self.load(lv)
        v = self.arith(op, a, b, self.prog.ty(n['a'].get('t')), self.prog.ty(n['b'].get('t')), n)
        self.write(lv, v)
        return lv

    def e_cond(self, n):
        c = self.ev(n['c'])
        c = tobool(self.load(c))
        b = n['b']
        if self.is_assert(n):
            self.fact(c)
            return Opq('void')
        return self.branch(c, lambda: self.ev(n['a']), lambda: self.ev(n['b']))

    def is_assert(self, n):
        b = n['b']
        while b.get('k') in ('icast', 'cast'):
            b = b['e']
        return b.get('k') == 'call' and b.get('n') == '__assert_fail'

    def e_icast(self, n):
        ck = n.get('ck', '')
        x = self.ev(n['e'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return tobool(self.load(x))
        if ck == 'FloatingToIntegral':
            v = topoly(self.load(x))
            return v if is_int(v) else fun('trunc', v, sort='int')
        if ck in ('IntegralCast', 'IntegralToFloating'):
            v = self.load(x)
            return topoly(v) if is_num(v) else v
        if ck == 'ToVoid':
            return Opq('void')
        return x

    def e_cast(self, n):
        if n.get('how') == 'dynamic':
            return self.dyn_cast(n)
        return self.e_icast(n)

    def dyn_cast(self, n):
        x = self.ev(n['e'])
        v = self.load(x) if isinstance(x, LV) else x
        c = self.prog.ty(n.get('t'))
        want = (c.get('pt') or c.get('s', '')).replace('const ', '').replace('*', '').replace('&', '').strip()
        isptr = '*' in c.get('s', '')
        if isptr:
            if not isinstance(v, Ptr):
                self.note(n, 'dynamic_cast')
                return Opq('dynamic_cast')
            if v.lv is None:
                return v
            o = self.load(v.lv)
        else:
            o = v
        if isinstance(o, Rec):
            names = [o.cls] + self.prog.bases(o.cls)
            hit = any(y == want or y.endswith('::' + want) for y in names)
        elif isinstance(o, Abs):
            names = self.absmodels[o.kind].classes
            hit = any(y == want or y.endswith('::' + want) for y in names)
        else:
            self.note(n, 'dynamic_cast')
            return Opq('dynamic_cast')
        if hit:
            return x
        if isptr:
            return Ptr(None)
        raise Unsupported('bad_cast')

    def e_idx(self, n):
        a = self.ev(n['a'] if 'a' in n else n['b'])
        i = topoly(self.val(n['i'] if 'i' in n else n['b']))
        v = self.load(a)
        if isinstance(v, Arr):
            return self.as_lv(a).sub(('ix', i, ZERO))
        if isinstance(v, Ptr) and v.lv is not None:
            w = self.load(v.lv)
            if isinstance(w, Arr):
                return v.lv.sub(('ix', i, ZERO))
        if isinstance(v, It):
            return self.it_lv(self.it_step(v, i))
        self.note(n, 'index')
        return Opq('index')

    def e_initlist(self, n):
        return self.build_initlist(n, self.prog.ty(n.get('t')))

    def e_stdinit(self, n):
        x = n.get('e') or n.get('a')
        if isinstance(x, dict):
            return self.ev(x)
        return Opq('stdinit')

    def build_initlist(self, n, t):
        a = [self.copyval(self.ev(x)) for x in n.get('a', [])]
        c = (t or {}).get('c', '').replace('const ', '')
        if t and t.get('cls') == 'rec' and c in self.prog.records:
            fs = [f['n'] for f in self.prog.records[c]['fields']]
            return Rec(c, dict(zip(fs, a)))
        if t and t.get('cls') in ('int', 'uint', 'float', 'bool', 'ptr', 'enum') and len(a) <= 1:
            return a[0] if a else (FALSE if t['cls'] == 'bool' else Ptr(None) if t['cls'] == 'ptr' else ZERO)
        if a and all(is_num(x) for x in a):
            ps = [topoly(x) for x in a]
            return Arr(P(len(ps)), ONE, lambda i, j: pick(ps, i))
        if a and all(isinstance(x, Arr) for x in a) and c.startswith(('std::initializer_list<std::initializer_list', 'double[', 'std::array<')) or (t and t.get('cls') == 'array' and a and all(isinstance(x, Arr) for x in a)):
            return Arr(P(len(a)), a[0].rows, lambda i, j: pick2(a, i, j))
        return Seq([('one', x) for x in a])

    def e_zeroinit(self, n):
        return self.zero_of(n.get('t'))

    def e_lambda(self, n):
        env = dict(self.fr.env)
        caps = {}
        for c in n.get('caps', []):
            if c.get('this'):
                continue
            if c.get('ref'):
                if c['id'] in env:
                    caps[c['id']] = env[c['id']]
            else:
                if c.get('init') is not None:
                    caps[c['id']] = self.temp(self.copyval(self.ev(c['init'])), 'c')
        env.update(caps)
        return Fn(None, n, env, self.fr.this)

    def e_delete(self, n):
        p = self.val(n['e'])
        if isinstance(p, Ptr) and p.lv is not None and not p.lv.path:
            self.freed.append(p.lv.root)
        return Opq('void')

    def e_new(self, n):
        init = n.get('init')
        if init is None:
            v = self.default_value(self.prog.ty(n['at']))
        else:
            v = self.copyval(self.ev(init))
        lv = self.temp(v, 'heap')
        return Ptr(lv)

    # ------------------------------------------------------------ calls
    def copyval(self, x):
        """value of x as an independent object"""
        if isinstance(x, Sel) and isinstance(x.a, (LV, Sel)):
            return self.load(x)
        return self.load(x)

    def e_call(self, n):
        fn = n.get('fn') or {}
        name = n.get('n')
        if fn.get('m') in self.prog.fns and fn.get('repo'):
            return self.call_repo(self.prog.fns[fn['m']], n['a'], None, n)
        if fn.get('q') in self.handlers:
            return self.handlers[fn['q']](self, n)
        if not fn:
            # call through a pointer or functor
            f = self.val(n['f']) if n.get('f') else None
            if isinstance(f, Fn):
                return self.call_fn(f, [self.ev(a) for a in n['a']], n)
            self.note(n, 'indirect call')
            return Opq('indirect')
        return self.std_call(n, fn.get('q', ''), name)

    def e_mcall(self, n):
        fn = n.get('fn') or {}
        obj = self.ev(n['o'])
        if n.get('arrow'):
            ov = self.load(obj) if not isinstance(obj, Sel) else obj
            obj = self.deref(obj)
        if fn.get('repo') or (fn.get('m') in self.prog.fns):
            return self.on_obj(obj, lambda o: self.repo_method(n, fn, o))
        h = self.handlers.get(fn.get('q', '').split('<')[0] + '::' + n['n'])
        if h:
            return h(self, n, obj)
        return self.std_method(n, n['n'], obj)

    def on_obj(self, obj, fn):
        if isinstance(obj, Sel):
            return self.branch(obj.c, lambda: self.on_obj(obj.a, fn), lambda: self.on_obj(obj.b, fn))
        if isinstance(obj, LV):
            v = self.load(obj)
            if isinstance(v, Sel):
                return self.branch(v.c, lambda: self.on_variant(obj, v.a, fn), lambda: self.on_variant(obj, v.b, fn))
            return fn(obj)
        return fn(self.as_lv(obj))

    def on_variant(self, obj, v, fn):
        # narrow the object to one alternative for the duration of the call
        self.write(obj, v)
        return self.on_obj(obj, fn)

    def dyn_class(self, o):
        v = self.load(o)
        if isinstance(v, Rec):
            return v.cls
        return None

    def repo_method(self, n, fn, o):
        v = self.load(o)
        target = self.prog.fns.get(fn.get('m'))
        if isinstance(v, Abs):
            r = self.absmodels[v.kind].method(self, v, o, n, fn)
            if r is not NotImplemented:
                return r
            if target is None:
                self.note(n, 'method %s of abstract object' % fn.get('q'))
                return self.havoc_call(n)
            return self.call_repo(target, n['a'], o, n)
        if isinstance(v, Opq):
            self.note(n, 'method on unknown object')
            return self.havoc_call(n)
        if n.get('dyn') and isinstance(v, Rec):
            t2 = self.resolve_virtual(fn, v.cls)
            if t2 is not None:
                target = t2
        if target is None:
            # implicit/defaulted members
            if n['n'] == 'operator=':
                w = self.copyval(self.ev(n['a'][0]))
                self.write(o, w)
                return o
            self.note(n, 'no body for %s' % fn.get('q'))
            return self.havoc_call(n)
        return self.call_repo(target, n['a'], o, n)

    def resolve_virtual(self, fn, cls):
        """final overrider of fn in cls"""
        order = [cls] + self.prog.bases(cls)
        name = fn['q'].split('::')[-1]
        for c in order:
            for f in self.prog.fns.values():
                if f.get('clsfull') == c and f['n'] == name:
                    if f['m'] == fn.get('m') or fn.get('m') in self.all_overrides(f):
                        return f
        return None

    def all_overrides(self, f, seen=None):
        seen = seen or set()
        for m in f.get('overrides') or []:
            if m not in seen:
                seen.add(m)
                g = self.prog.fns.get(m)
                if g:
                    self.all_overrides(g, seen)
        return seen

    def havoc_call(self, n):
        for a in n.get('a', []):
            x = self.ev(a)
            t = self.prog.ty(a.get('t'))
            if isinstance(x, LV) and self.mutable_arg(a, n):
                try:
                    self.write(x, self.havoc_of(self.load(x)))
                except Unsupported:
                    pass
            v = x if isinstance(x, (It, Ptr)) else self.load(x) if isinstance(x, LV) else None
            if isinstance(v, (It, Ptr)) and v.lv is not None and 'const_iterator' not in t['c'] and 'const ' not in t['c'].split('*')[0].split('<')[0]:
                try:
                    self.write(v.lv, self.havoc_of(self.load(v.lv)))
                except Unsupported:
                    pass
        return Opq('call %s' % n.get('n'))

    def mutable_arg(self, a, n):
        fn = n.get('fn') or {}
        pts = fn.get('pt') or []
        try:
            i = n['a'].index(a)
        except ValueError:
            return True
        if i < len(pts):
            t = self.prog.ty(pts[i])
            if 'const' in t['s'] and ('&' in t['s'] or 'Ref<const' in t['s']):
                return False
            if not t.get('ref') and not t.get('rref') and not t.get('ptr') and 'Ref<' not in t['c']:
                return False
        return True

    def havoc_of(self, v):
        if isinstance(v, Poly):
            return opaque('unknown call')
        if isinstance(v, Formula):
            return bopaque('unknown call')
        if isinstance(v, Arr):
            u = next(_root)
            return Arr(v.rows, v.cols, lambda i, j: Poly.at(atom('opaque', 'h%d' % u, i, j)), v.arr)
        return Opq('unknown call')

    def e_opcall(self, n):
        fn = n.get('fn') or {}
        if fn.get('repo') and (fn.get('m') in self.prog.fns or fn.get('cls')):
            if fn.get('cls') and not fn.get('static') and self.is_member_op(fn, n):
                obj = self.ev(n['a'][0])
                if n['op'] == '()':
                    v = self.load(obj) if isinstance(obj, LV) else obj
                    if isinstance(v, Fn):
                        return self.call_fn(v, [self.ev(y) for y in n['a'][1:]], n)
                n2 = dict(n)
                n2['a'] = n['a'][1:]
                n2['n'] = 'operator' + n['op']
                return self.on_obj(obj, lambda o: self.repo_method(n2, fn, o))
            if fn.get('m') in self.prog.fns:
                return self.call_repo(self.prog.fns[fn['m']], n['a'], None, n)
        return self.std_op(n, n['op'])

    def is_member_op(self, fn, n):
        return len(fn.get('pt') or []) == len(n['a']) - 1

    def bind_arg(self, p, a):
        """parameter binding: a is a node or an already evaluated value"""
        t = self.prog.ty(p.get('t'))
        x = self.evinit(a, t) if isinstance(a, dict) else a
        if t.get('ref') or t.get('rref'):
            if isinstance(x, Sel) and not isinstance(x.a, (LV, Sel)) and not isinstance(x.b, (LV, Sel)):
                return self.temp(x)
            return x if isinstance(x, (LV, Sel)) else self.temp(x)
        if self.is_alias_type(t):
            if isinstance(x, (LV,)):
                if 'Ref<const' in t['c']:
                    # reading through a const Ref: keep the alias
                    return x
                return x
            return self.temp(self.load(x))
        v = self.copyval(x)
        return self.temp(self.coerce(v, t), 'p')

    def call_repo(self, f, args, this, n, ctor_root=None):
        h = self.handlers.get(f['q'])
        if h:
            r = h(self, n, f, args, this)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Unsupported('recursion in %s' % f['q'])
        self.visited.add(f['m'])
        self.ncalls += 1
        fr = Frame(f)
        fr.this = this
        for p, a in zip(f.get('params', []), args):
            x = self.bind_arg(p, a)
            fr.env[p['id']] = x
        return self.run_frame(fr, f)

    def run_frame(self, fr, f):
        self.frames.append(fr)
        self.depth += 1
        entry_pc = self.pc
        try:
            if f.get('inits'):
                self.run_inits(f, fr)
            if f.get('body') is not None and self.live:
                self.exec(f['body'])
        finally:
            self.frames.pop()
            self.depth -= 1
        return self.finish(fr)

    def finish(self, fr):
        rets = list(fr.returns)
        if self.live:
            rets.append((None, self.snap()))
        if not rets:
            self.live = False
            raise Dead()
        v, s = rets[0]
        self.restore(s)
        self.live = True
        for w, s2 in rets[1:]:
            c = self.pc_diff(self.pc, s2[1])
            s1 = self.snap()
            s2 = (s2[0], s2[1], s2[2], True)
            self.merge2(c, s1, s2)
            if v is None or w is None:
                v = None
            else:
                v = self.mvx(c, v, w)
        return v if v is not None else Opq('void')

    def call_fn(self, f, args, n):
        """call a function value with evaluated arguments"""
        if f.py:
            return f.py(self, args)
        if f.m is not None:
            fn = self.prog.fns.get(f.m)
            if fn is None:
                for q in self.prog.decls.get(f.m, []):
                    fn = q
                    break
            if fn is None:
                self.note(n, 'call of %s' % f.m)
                return Opq('call')
            return self.call_repo(fn, args, None, n)
        fr = Frame({'q': 'lambda', 'file': self.fr.fn['file'] if self.fr.fn else '', 'l': n.get('l'), 'params': f.node['params']})
        fr.env = dict(f.env)
        fr.this = f.this
        for p, a in zip(f.node['params'], args):
            fr.env[p['id']] = self.bind_arg(p, a)
        if f.node.get('rt') is not None:
            fr.fn['rt'] = f.node['rt']
        return self.run_frame(fr, {'body': f.node['body']})

    # ------------------------------------------------------------ objects
    def run_inits(self, f, fr):
        for i in f['inits']:
            if not self.live:
                return
            e = i.get('e')
            if 'base' in i or 'deleg' in i:
                if e is None:
                    continue
                self.construct_into(e, fr)
            else:
                fn = i['f']
                ft = self.field_type(f, fn)
                if e is None:
                    v = self.default_value(ft) if ft else Opq('field')
                elif ft and (ft.get('ref') or ft.get('rref')):
                    v = Ptr(self.as_lv(self.ev(e)))
                else:
                    v = self.evinit(e, ft)
                    if isinstance(v, LV) and ft and self.is_alias_type(ft):
                        v = Ptr(v)
                    else:
                        v = self.coerce(self.copyval(v), ft or {})
                self.write(fr.this.sub(('f', fn)), v)
        # members without initialiser
        cls = f.get('clsfull')
        r = self.prog.records.get(cls)
        if r and not any('deleg' in i for i in f['inits']):
            self.fill_fields(fr.this, cls)

    def fill_fields(self, this, cls):
        r = self.prog.records.get(cls)
        if not r:
            return
        obj = self.load(this)
        for fld in r['fields']:
            if isinstance(obj, Rec) and fld['n'] not in obj.d:
                if fld.get('init') is not None:
                    self.frames[-1]
                    v = self.copyval(self.evinit(fld['init'], self.prog.ty(fld['t'])))
                else:
                    v = self.default_value(self.prog.ty(fld['t']))
                self.write(this.sub(('f', fld['n'])), v)

    def field_type(self, f, name):
        r = self.prog.records.get(f.get('clsfull'))
        if r:
            for x in r['fields']:
                if x['n'] == name:
                    return self.prog.ty(x['t'])
        return None

    def construct_into(self, e, fr):
        """base or delegating constructor on the current object"""
        while e['k'] in ('icast', 'cast'):
            e = e['e']
        if e['k'] == 'inhctor':
            fn = self.prog.fns.get((e.get('fn') or {}).get('m'))
            if fn is None:
                raise Unsupported('inherited constructor without body')
            params = fr.fn.get('params', [])
            args = [fr.env[p['id']] for p in params]
            self.call_repo(fn, args, fr.this, e)
            return
        if e['k'] == 'ctor':
            fn = self.prog.fns.get((e.get('fn') or {}).get('m'))
            if fn is not None:
                self.call_repo(fn, e['a'], fr.this, e)
                return
            if e.get('copy') or e.get('move'):
                src = self.as_lv(self.ev(e['a'][0]))
                self.memberwise(fr.this, src, (e.get('fn') or {}).get('clsfull') or (e.get('fn') or {}).get('cls'), bool(e.get('move')))
                return
            cls = (e.get('fn') or {}).get('clsfull')
            if cls and not e['a']:
                self.fill_fields(fr.this, cls)
                return
            return
        raise Unsupported('base initialiser %s' % e['k'])

    def memberwise(self, dst, src, cls, move):
        fields = self.prog.all_fields(cls) if cls else []
        for _, fld in fields:
            p = ('f', fld['n'])
            v = self.load(src.sub(p))
            self.write(dst.sub(p), v)
            if move:
                self.moved_from(src.sub(p), v)

    def moved_from(self, lv, v):
        if isinstance(v, Box):
            self.write(lv, Box(None))
        elif isinstance(v, Seq):
            self.write(lv, Seq())
        elif isinstance(v, Rec) and v.cls == 'std::pair':
            pass
        elif isinstance(v, Arr):
            self.write(lv, Arr(ZERO, v.cols, lambda i, j: opaque('moved-from array')))

    def e_ctor(self, n):
        fn = n.get('fn') or {}
        t = self.prog.ty(n.get('t'))
        cls = fn.get('clsfull') or fn.get('cls') or t.get('c')
        if n.get('elide') and n['a']:
            return self.ev(n['a'][0])
        if fn.get('repo') or cls in self.prog.records:
            return self.construct(n, fn, cls)
        h = self.handlers.get('ctor:' + (cls or '').split('<')[0])
        if h:
            return h(self, n)
        return self.std_ctor(n, fn, cls, t)

    def construct(self, n, fn, cls):
        target = self.prog.fns.get(fn.get('m'))
        if (n.get('copy') or n.get('move')) and n['a']:
            src = self.ev(n['a'][0])
            sv = self.load(src)
            if isinstance(sv, Abs):
                # copying an abstract object of this static type
                return Abs(sv.kind, sv.key)
            if target is None or (target.get('implicit') and not target.get('inits')) or target.get('defaulted'):
                if isinstance(src, LV) and isinstance(sv, Rec):
                    root = self.temp(Rec(cls, {}), 'o')
                    self.memberwise(root, src, cls, bool(n.get('move')))
                    return self.store.pop(root.root)
                return sv
            if isinstance(sv, Opq):
                return Opq('copy')
            root = self.temp(Rec(cls, {}), 'o')
            self.call_repo(target, [src], root, n)
            return self.take(root)
        if target is None:
            if not n['a']:
                root = self.temp(Rec(cls, {}), 'o')
                self.fill_all(root, cls)
                return self.take(root)
            self.note(n, 'constructor of %s without body' % cls)
            return Opq('ctor %s' % cls)
        root = self.temp(Rec(cls, {}), 'o')
        self.call_repo(target, n['a'], root, n)
        return self.take(root)

    def fill_all(self, root, cls):
        for b in self.prog.records[cls]['bases']:
            if b in self.prog.records:
                self.fill_all(root, b)
        self.fill_fields(root, cls)

    def take(self, lv):
        return self.store.pop(lv.root)


class Dead(Exception):
    pass


class PastEnd(Unsupported):
    pass


class NullDeref(Unsupported):
    pass


def pick(ps, i):
    if i.is_const():
        c = i.const()
        if c.denominator == 1 and 0 <= c < len(ps):
            return ps[int(c)]
        return opaque('index out of range')
    r = ps[-1]
    for k in range(len(ps) - 2, -1, -1):
        r = ite(eq(i, P(k)), ps[k], r)
    return r


def pick2(rows, i, j):
    if i.is_const():
        return rows[int(i.const())].f(j, ZERO)
    r = rows[-1].f(j, ZERO)
    for k in range(len(rows) - 2, -1, -1):
        r = ite(eq(i, P(k)), rows[k].f(j, ZERO), r)
    return r
