"""Scenario construction: symbolic operands for the value analysis."""
import front
from values import *
import values as V
import term as T
from term import *
from loops import Loops
import interp
from interp import Dead, NullDeref, Machine
from absfun import FunModel, BasisModel

NS = 'gsplines::functions::'
FE = NS + 'FunctionExpression'
_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = front.load()
    return _prog


class M(Loops):
    def __init__(self, p=None):
        super().__init__(p or prog())
        self.absmodels = {'fun': FunModel(), 'basis': BasisModel()}
        self.used = []
        CTX[0] = Ctx()
        self.ghosts = []       # (Rec, key): operands whose value is specified separately
        self.handlers[FE + '::value_impl'] = M.h_value

    def h_value(self, n, f, args, this):
        o = self.load(this) if this is not None else None
        if isinstance(o, Rec) and self.ghosts and len(args) == 2:
            for g, key in self.ghosts:
                if o.cls == g.cls and all(interp.same(o.d.get(x), g.d.get(x)) for x in
                                          ('function_array_', 'type_', 'eval_operation_')):
                    t = self.load(args[0]) if not isinstance(args[0], dict) else self.val(args[0])
                    r = args[1] if not isinstance(args[1], dict) else self.ev(args[1])
                    out = self.load(r)
                    self.write(r, Arr(out.rows, out.cols, lambda i, j: V.val(key, t.lin(i), j)))
                    return Opq('void')
        return NotImplemented

    def temp_ptr(self, v):
        return Ptr(self.temp(v, 'heap'))

    def use(self, v, what):
        if isinstance(v, Abs) and v.moved:
            self.used.append((v, what))

    # ---------------------------------------------------------- running
    def call(self, f, args=(), this=None):
        """call repository function f with evaluated arguments (LVs or values)"""
        return self.call_repo(f, list(args), this, {'l': f['l'], 'k': 'call', 'n': f['n'], 'a': []})

    def new(self, cls, ctor, args):
        """construct an object, returns its LV"""
        root = self.new_root('o')
        self.store[root] = Rec(cls, {})
        lv = LV(root)
        self.call_repo(ctor, list(args), lv, {'l': ctor['l'], 'k': 'ctor', 'a': []})
        return lv


def pair(a, b):
    return Rec('std::pair', {'first': P(a), 'second': P(b)})


TYPES = ['SUM', 'MULTIPLICATION', 'COMPOSITION', 'CONCATENATION', 'UNIQUE', 'NEGATIVE']


def afun(name):
    return Abs('fun', fnkey(name))


def ftype(p, name):
    e = p.enums if hasattr(p, 'enums') else None
    return TYPES.index(name)


def expr(m, name, ty, n=None):
    """an arbitrary FunctionExpression of the given type"""
    p = m.prog
    if ty in ('UNIQUE', 'NEGATIVE'):
        segs = [('one', Box(afun(name + '0')))]
    else:
        cnt = sym(name + '_n', sort='int', nonneg=True)
        segs = [('one', Box(afun(name + '0'))),
                ('gen', cnt, lambda i: Box(Abs('fun', Poly.at(atom('fni', name, i)))), None),
                ('one', Box(afun(name + 'z')))]
    ctor = [f for f in p.find(FE + '::FunctionExpression') if len(f['params']) == 5 and 'list' in p.ty(f['params'][3]['t'])['s']
            and p.ty(f['params'][3]['t']).get('rref')][0]
    lst = m.temp(Seq(segs))
    k = fnkey(name)
    nm = m.temp(Str())
    d = pair(dom0(k), dom1(k))
    m.fact(le(dom0(k), dom1(k)))
    return m.new(FE, ctor, [d, codom(k), P(TYPES.index(ty)), lst, nm])


def vec(name, n):
    """a symbolic column vector"""
    return Arr(n, ONE, lambda i, j: Poly.at(atom('app', name, i)))


def value_of(m, obj, name='T'):
    """value of the function object at a generic vector of points: Arr and sizes"""
    n = sym('N', sort='int', nonneg=True)
    m.fact(le(ONE, n))
    pts = m.temp(vec(name, n))
    v = m.load(obj)
    if isinstance(v, Abs):
        return Arr(n, codom(v.key), lambda i, j: V.val(v.key, Poly.at(atom('app', name, i)), j))
    f = [x for x in m.prog.find(NS + 'FunctionBase::value_impl')] if False else None
    vi = virt(m.prog, v.cls, 'value_impl')
    cd = m.load(obj.sub(('f', 'codom_dim_')))
    out = m.temp(Arr(n, cd, lambda i, j: Poly.at(atom('uninit', 'result', i, j))))
    m.call(vi, [pts, out], obj)
    return m.load(out)


def virt(p, cls, name, npar=None):
    for c in [cls] + p.bases(cls):
        for f in p.fns.values():
            if f.get('clsfull') == c and f['n'] == name and (npar is None or len(f['params']) == npar):
                return f
    raise Unsupported('no %s in %s' % (name, cls))
