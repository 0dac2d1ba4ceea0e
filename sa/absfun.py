"""Contract models of polymorphic operands: an arbitrary function, an arbitrary basis."""
from values import *
import values as V
import term as T
from term import *


def pick(i, xs):
    i = P(i)
    if i.is_const() and 0 <= i.const() < len(xs):
        return P(xs[int(i.const())])
    r = P(xs[-1])
    for q in range(len(xs) - 2, -1, -1):
        r = ite(eq(i, P(q)), P(xs[q]), r)
    return r


class FunModel:
    """an arbitrary implementation of FunctionBase obeying its contract"""
    kind = 'fun'
    classes = ('gsplines::functions::FunctionBase',)

    def field(self, m, v, name):
        c = getattr(m, 'fconst', {}).get(v.key)
        if c is not None and name in ('domain_', 'window_'):
            return Rec('std::pair', {'first': P(c[0]), 'second': P(c[1])})
        if c is not None and name == 'codom_dim_':
            return P(c[2])
        if name in ('domain_', 'window_'):
            return Rec('std::pair', {'first': dom0(v.key), 'second': dom1(v.key)})
        if name == 'codom_dim_':
            return codom(v.key)
        if name == 'name_':
            return Str()
        raise Unsupported('field %s of an arbitrary function' % name)

    def method(self, m, v, o, n, fn):
        name = fn['q'].split('::')[-1]
        args = n.get('a', [])
        if name in ('clone_impl',):
            return m.temp_ptr(Abs('fun', v.key))
        if name in ('move_clone_impl',):
            m.write(o, Abs('fun', v.key, True))
            return m.temp_ptr(Abs('fun', v.key))
        if name == 'deriv_impl':
            d = topoly(m.val(args[0]))
            return m.temp_ptr(Abs('fun', der(v.key, d)))
        if name == 'value_impl':
            t = m.val(args[0])
            r = m.ev(args[1])
            out = m.load(r)
            f = t
            if isinstance(out, Arr):
                k = v.key
                m.write(r, Arr(out.rows, out.cols, lambda i, j: V.val(k, f.lin(i), j)))
                m.use(v, 'value')
            else:
                raise Unsupported('value into %r' % (out,))
            return Opq('void')
        if name == 'print':
            return Opq('void')
        if name == 'operator=':
            raise Unsupported('assignment of an arbitrary function')
        return NotImplemented


class BasisModel:
    """an arbitrary implementation of basis::Basis"""
    kind = 'basis'
    classes = ('gsplines::basis::Basis',)

    def field(self, m, v, name):
        if name == 'dim_':
            c = getattr(m, 'bconst', {}).get(v.key)
            if c is not None:
                return P(c)
            return Poly.at(atom('bdim', v.key, sort='int', nonneg=True))
        if name == 'name_':
            return Str()
        if name == 'parameters_' or name == 'parameters_float_':
            return Opq('basis parameters')
        if name == 'derivative_matrices_buffer_':
            return Opq('derivative matrices')
        raise Unsupported('field %s of an arbitrary basis' % name)

    def method(self, m, v, o, n, fn):
        name = fn['q'].split('::')[-1]
        args = n.get('a', [])
        k = v.key
        if name == 'clone':
            return Box(Abs('basis', k))
        if name == 'move_clone':
            m.write(o, Abs('basis', k, True))
            return Box(Abs('basis', k))
        ap = {'eval_on_window': 'bev', 'eval_derivative_on_window': 'bdev',
              'eval_derivative_wrt_tau_on_window': 'btev'}.get(name)
        mono = k in getattr(m, 'bmono', ())
        if mono and name in ('eval_on_window', 'eval_derivative_on_window'):
            s, tau = topoly(m.val(args[0])), topoly(m.val(args[1]))
            d = topoly(m.val(args[2])) if len(args) == 4 else ZERO
            r = m.ev(args[-1])
            out = m.load(r)
            dim = m.bconst[k]
            xs = []
            for i in range(dim):
                c, e = 1, i
                for _ in range(int(d.const())):
                    c, e = c * e, e - 1
                x = P(c)
                for _ in range(max(e, 0)):
                    x = x * s
                for _ in range(int(d.const())):
                    x = x * P(2) * T.inv(tau)
                xs.append(x)
            m.write(r, Arr(out.rows, out.cols, lambda i, j: pick(i if out.cols == ONE else j, xs)))
            return Opq('void')
        if mono and name == 'get_derivative_matrix_block':
            d = int(topoly(m.val(args[0])).const())
            dim = m.bconst[k]

            def ent(i, j):
                c = 1
                for q in range(d):
                    c *= (j - q)
                return P(c) if i == j - d else ZERO
            rows = [[ent(i, j) for j in range(dim)] for i in range(dim)]
            return Arr(P(dim), P(dim), lambda i, j: pick(i, [pick(j, r) for r in rows]))
        if ap:
            s, tau = topoly(m.val(args[0])), topoly(m.val(args[1]))
            d = topoly(m.val(args[2])) if len(args) == 4 else ZERO
            r = m.ev(args[-1])
            out = m.load(r)
            if ap == 'bdev':
                ap = 'bev'
            m.write(r, Arr(out.rows, out.cols, lambda i, j: Poly.at(atom(ap, k, s, tau, d, i if out.cols == ONE else j))))
            return Opq('void')
        if name in ('add_derivative_matrix', 'add_derivative_matrix_deriv_wrt_tau'):
            tau, d = topoly(m.val(args[0])), topoly(m.val(args[1]))
            r = m.ev(args[2])
            out = m.load(r)
            ap = 'gram' if name == 'add_derivative_matrix' else 'gramt'
            m.write(r, Arr(out.rows, out.cols, lambda i, j: topoly(out.at(i, j)) + Poly.at(atom(ap, k, tau, d, P(i), P(j)))))
            return Opq('void')
        if name == 'get_derivative_matrix_block':
            d = topoly(m.val(args[0]))
            dim = Poly.at(atom('bdim', k, sort='int', nonneg=True))
            if d == ZERO:
                return Arr(dim, dim, lambda i, j: ite(eq(i, j), ONE, ZERO))
            return Arr(dim, dim, lambda i, j: Poly.at(atom('bdm', k, d, i, j)))
        if name in ('operator==', 'operator!='):
            w = m.val(args[0])
            if not isinstance(w, Abs):
                raise Unsupported('comparison of a basis with %r' % (w,))
            r = TRUE if w.key == k else getattr(m, 'basis_eq', FALSE)
            return r if name == 'operator==' else T.f_not(r)
        return NotImplemented
