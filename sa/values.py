"""Abstract values used by the value analysis."""
from term import *
import term as T


class Unsupported(Exception):
    pass


def memo(f):
    """cache of the constant entries of an array of constant size, per context"""
    if getattr(f, 'memo', False):
        return f
    tab = {}

    def g(i, j):
        if not (i.is_const() and j.is_const()):
            return f(i, j)
        k = (CTX[0].key(), i, j)
        r = tab.get(k)
        if r is None:
            r = tab[k] = f(i, j)
        return r
    g.memo = True
    return g


class Arr:
    """dense array: f(i, j) -> Poly; arr=True for coefficient-wise arrays"""
    __slots__ = ('rows', 'cols', 'f', 'arr', 'tag')

    def __init__(self, rows, cols, f, arr=False, tag=None):
        self.rows, self.cols, self.arr, self.tag = P(rows), P(cols), arr, tag
        self.f = memo(f) if self.rows.is_const() and self.cols.is_const() else f

    def at(self, i, j=ZERO):
        return self.f(P(i), P(j))

    def lin(self, i):
        i = P(i)
        if self.cols == ONE or dec(eq(self.cols, ONE)) is True:
            return self.f(i, ZERO)
        if self.rows == ONE or dec(eq(self.rows, ONE)) is True:
            return self.f(ZERO, i)
        return self.f(imod(i, self.rows), idiv(i, self.rows))

    @property
    def size(self):
        return self.rows * self.cols

    def __repr__(self):
        return 'Arr(%s x %s)' % (show(self.rows), show(self.cols))


class Rec:
    __slots__ = ('cls', 'd')

    def __init__(self, cls, d):
        self.cls, self.d = cls, d

    def set(self, k, v):
        d = dict(self.d)
        d[k] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % x for x in self.d.items()))


class Box:
    """owning pointer; v is None when null"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Box(%r)' % (self.v,)


class Ptr:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


class Fn:
    """function reference or closure"""
    __slots__ = ('m', 'node', 'env', 'this', 'py')

    def __init__(self, m=None, node=None, env=None, this=None, py=None):
        self.m, self.node, self.env, self.this, self.py = m, node, env, this, py

    def __repr__(self):
        return 'Fn(%s)' % (self.m or 'lambda')


class Abs:
    """abstract polymorphic object: key is a term, kind names its contract"""
    __slots__ = ('kind', 'key', 'moved')

    def __init__(self, kind, key, moved=False):
        self.kind, self.key, self.moved = kind, key, moved

    def __repr__(self):
        return '%s<%s>%s' % (self.kind, show(self.key), '!moved' if self.moved else '')


class Seq:
    """sequence: segments ('one', v) | ('gen', n, tmpl, guard|None) | ('phi', id)"""
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        o = []
        for s in self.segs:
            if s[0] == 'one':
                o.append(repr(s[1]))
            elif s[0] == 'gen':
                o.append('gen(%s)' % show(s[1]))
            else:
                o.append(str(s))
        return '[%s]' % ', '.join(o)


class It:
    """iterator: position (segment, offset) in the container lv"""
    __slots__ = ('lv', 'seg', 'off', 'rev')

    def __init__(self, lv, seg, off=ZERO, rev=False):
        self.lv, self.seg, self.off, self.rev = lv, seg, P(off), rev

    def __repr__(self):
        return 'It(%d,%s%s)' % (self.seg, show(self.off), ',r' if self.rev else '')


class Ins:
    """insert iterator"""
    __slots__ = ('lv', 'front')

    def __init__(self, lv, front):
        self.lv, self.front = lv, front


class Sel:
    """undecided choice between unmergeable values"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Sel(%s ? %r : %r)' % (show(self.c), self.a, self.b)


class Str:
    __slots__ = ('s',)

    def __init__(self, s=None):
        self.s = s

    def __repr__(self):
        return 'Str(%r)' % self.s


class Opq:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opq(%s)' % self.why


class Tie(Opq):
    """std::tie: places assigned component by component"""
    __slots__ = ('lvs',)

    def __init__(self, lvs):
        Opq.__init__(self, 'tie')
        self.lvs = lvs


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, *p):
        return LV(self.root, self.path + tuple(p))

    def __eq__(self, o):
        return isinstance(o, LV) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.%s' % (p,) for p in self.path))


class View:
    """index transformation over an array: shape and fwd(i,j)->(I,J);
    inv(I,J)->(cond, i, j) for writing"""
    __slots__ = ('rows', 'cols', 'fwd', 'inv', 'arr', 'full')

    def __init__(self, rows, cols, fwd, inv, arr=None, full=False):
        self.rows, self.cols, self.fwd, self.inv, self.arr, self.full = P(rows), P(cols), fwd, inv, arr, full

    def __repr__(self):
        return 'view'


def block_view(r0, c0, rows, cols, brows, bcols):
    r0, c0, rows, cols = P(r0), P(c0), P(rows), P(cols)

    def inv(I, J):
        cs = []
        if not (r0 == ZERO and rows == brows):
            if rows == ONE:
                cs.append(eq(I, r0))
            else:
                cs += [le(r0, I), lt(I, r0 + rows)]
        if not (c0 == ZERO and cols == bcols):
            if cols == ONE:
                cs.append(eq(J, c0))
            else:
                cs += [le(c0, J), lt(J, c0 + cols)]
        return f_and(*cs), (ZERO if rows == ONE else I - r0), (ZERO if cols == ONE else J - c0)
    return View(rows, cols, lambda i, j: (r0 + i, c0 + j), inv)


def transpose_view(rows, cols):
    return View(cols, rows, lambda i, j: (j, i), lambda I, J: (T.TRUE, J, I))


def is_num(v):
    return isinstance(v, (Poly, Formula))


def topoly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, Formula):
        return ite(v, ONE, ZERO)
    if isinstance(v, Arr):
        return v.f(ZERO, ZERO)
    if isinstance(v, Opq):
        return opaque(v.why)
    raise Unsupported('number from %r' % (v,))


def tobool(v):
    if isinstance(v, Formula):
        return v
    if isinstance(v, Poly):
        if v.is_const():
            return T.TRUE if v.const() else T.FALSE
        return ne(v, ZERO)
    if isinstance(v, Box):
        return T.TRUE if v.v is not None else T.FALSE
    if isinstance(v, Ptr):
        return T.TRUE if v.lv is not None else T.FALSE
    if isinstance(v, Fn):
        return T.TRUE
    if isinstance(v, Opq):
        return bopaque(v.why)
    if isinstance(v, Sel):
        return f_ite(v.c, tobool(v.a), tobool(v.b))
    if isinstance(v, Rec) and 'has' in v.d:
        return v.d['has']
    raise Unsupported('bool from %r' % (v,))


# ---------------------------------------------------------- abstract functions
def fnkey(name):
    return Poly.at(atom('fn', name))


def der(key, d):
    d = P(d)
    if d == ZERO:
        return key
    if len(key.m) == 1:
        (mo, c), = key.m.items()
        if c == 1 and len(mo) == 1 and mo[0][0].kind == 'der' and mo[0][1] == 1:
            a = mo[0][0]
            return der(a.args[0], a.args[1] + d)
    return Poly.at(atom('der', key, d))


def val(key, t, j):
    return Poly.at(atom('val', key, P(t), P(j)))


def dom0(key):
    return Poly.at(atom('dom0', _undr(key)))


def dom1(key):
    return Poly.at(atom('dom1', _undr(key)))


def codom(key):
    return Poly.at(atom('codom', _undr(key), sort='int', nonneg=True))


def _undr(key):
    if len(key.m) == 1:
        (mo, c), = key.m.items()
        if c == 1 and len(mo) == 1 and mo[0][0].kind == 'der' and mo[0][1] == 1:
            return mo[0][0].args[0]
    return key


OBJ = {}


def objkey(rec):
    a = atom('obj', len(OBJ))
    OBJ[a.args[0]] = rec
    return Poly.at(a)


T.REBUILD = {
    'der': lambda a, na: der(*na),
    'dom0': lambda a, na: dom0(na[0]),
    'dom1': lambda a, na: dom1(na[0]),
    'codom': lambda a, na: codom(na[0]),
}


# ---------------------------------------------------------- current context
CTX = [Ctx()]


def cur():
    return CTX[0]


class under:
    """evaluate with additional facts"""

    def __init__(self, *fs):
        self.fs = fs

    def __enter__(self):
        self.old = CTX[0]
        CTX[0] = self.old.plus(*self.fs)

    def __exit__(self, *a):
        CTX[0] = self.old


def dec(f):
    return CTX[0].decide(f)


def gite(c, ta, tb):
    v = dec(c)
    if v is True:
        return ta()
    if v is False:
        return tb()
    with under(c):
        a = ta()
    with under(f_not(c)):
        b = tb()
    return ite(c, a, b)


# ---------------------------------------------------------- value substitution
def hygienic(idx, env, run):
    """run(idx) then substitute env in the result, keeping variables of the
    query index apart from the substituted ones"""
    clash = [a for a in env if any(a in p.fv for p in idx)]
    if not clash:
        return subst(run(*idx), env)
    ren = {a: P(fresh_bv('r')) for a in clash}
    back = {list(p.m)[0][0][0]: P(a) for a, p in ren.items()}
    idx2 = [subst(p, ren) for p in idx]
    fs = [subst(f, ren) for f in CTX[0].facts if any(a in f.fv for a in clash)]
    with under(*fs):
        r = run(*idx2)
    return subst(subst(r, env), back)


def vsubst(v, env):
    if not env:
        return v
    if isinstance(v, (Poly, Formula)):
        return subst(v, env)
    if isinstance(v, Arr):
        f = v.f
        return Arr(subst(v.rows, env), subst(v.cols, env), lambda i, j: hygienic((i, j), env, f), v.arr, v.tag)
    if isinstance(v, Rec):
        return Rec(v.cls, {k: vsubst(x, env) for k, x in v.d.items()})
    if isinstance(v, Box):
        return Box(vsubst(v.v, env)) if v.v is not None else v
    if isinstance(v, Abs):
        return Abs(v.kind, subst(v.key, env), v.moved)
    if isinstance(v, Seq):
        return Seq([seg_subst(s, env) for s in v.segs])
    if isinstance(v, Sel):
        return Sel(subst(v.c, env), vsubst(v.a, env), vsubst(v.b, env))
    if isinstance(v, It):
        return It(v.lv, v.seg, subst(v.off, env), v.rev)
    return v


def seg_subst(s, env):
    if s[0] == 'one':
        return ('one', vsubst(s[1], env))
    if s[0] == 'gen':
        t, g = s[2], s[3]
        return ('gen', subst(s[1], env), lambda i: vhyg(t, i, env),
                (lambda i: hygienic((i,), env, g)) if g else None)
    return s


def seq_len(s):
    n = ZERO
    for x in s.segs:
        if x[0] == 'one':
            n = n + 1
        elif x[0] == 'gen':
            if x[3] is None:
                n = n + x[1]
            else:
                bv = fresh_bv('q')
                n = n + psum(bv, x[1], ite(x[3](P(bv)), ONE, ZERO))
        else:
            raise Unsupported('length of a loop-carried sequence')
    return n


def vhyg(t, i, env):
    clash = [a for a in env if a in i.fv]
    if not clash:
        return vsubst(t(i), env)
    ren = {a: P(fresh_bv('r')) for a in clash}
    back = {list(p.m)[0][0][0]: P(a) for a, p in ren.items()}
    return vsubst(vsubst(t(subst(i, ren)), env), back)
