"""Which rules decide which property."""
import rules_alg as A
import rules_deriv as D
import rules_elem as E
import rules_gs as G
import rules_basis as B
import rules_e2e as X
import rules_col as K
import rules_quad as Q
import rules_interp as N
import rules_leaf as L
import rules_state as H
import rules_factory as F
import rules_sparse as R


class Prop:
    def __init__(self, checks, technique, minimum=1, level='other', assumptions=()):
        self.checks, self.technique, self.minimum, self.level = checks, technique, minimum, level
        self.assumptions = list(assumptions)


ABS = ['real arithmetic stands for floating point', 'operands satisfy the invariants the library establishes at construction']

PROPS = {
    'P01': Prop([A.check_semantics, E.check_scalar_multiple, L.check_values, H.check_history_expr], 'abstract interpretation of every overload of the function-algebra operators in a symbolic value '
                'domain, partitioned by the expression class of each operand; operand lists of arbitrary length; result value compared '
                'with the pointwise definition', 1, assumptions=ABS),
    'P02': Prop([A.check_preserve], 'effect and alias analysis: abstract state of each operand before and after every operation, '
                'points-to closure of the result', 1, assumptions=ABS),
    'P03': Prop([A.check_guards], 'abstract interpretation of every operation on a partition of operand metadata '
                '(domain/codomain cases on both sides of each compatibility condition); throw sites reached', 1, assumptions=ABS),
    'P04': Prop([A.check_meta, E.check_scalar_multiple], 'abstract interpretation: symbolic domain and codomain of the result of every operation', 1, assumptions=ABS),
    'P05': Prop([D.check_deriv, L.check_derivs, H.check_history_expr], 'abstract interpretation of the derivative constructors for every expression kind, symbolic operands; the value of '
                'the constructed derivative is compared with the symbolic derivative of the value', 1, assumptions=ABS + ['lists of 1 to 4 parts, orders 0 to 4']),
    'P06': Prop([E.check_elementary, E.check_dot, E.check_entry, H.check_history_leaf], 'abstract interpretation of value and derivative of every elementary function, '
                'result compared with the closed-form derivative', 1, assumptions=ABS),
    'P07': Prop([G.check_eval, G.check_eval_many, G.check_segment, G.check_structure, H.check_history_spline], 'abstract interpretation of spline evaluation, breakpoints and waypoints over symbolic coefficients, interval '
                'lengths and an abstract basis; compared with the defining sum', 1, assumptions=ABS),
    'P08': Prop([G.check_deriv, X.check_deriv_bases], 'abstract interpretation of the spline derivative constructor over symbolic coefficients and an abstract basis; compared '
                'with the derivative matrix applied to each coefficient block', 1, assumptions=ABS + ['1 to 3 intervals, 1 to 2 components, orders 0 to 3']),
    'P09': Prop([G.check_space, G.check_equality], 'abstract interpretation of every arithmetic and comparison overload of the spline classes on a partition of '
                'operand metadata (one differing attribute at a time)', 1, assumptions=ABS),
    'P10': Prop([G.check_scaling, X.check_scale_bases], 'abstract interpretation of the time scaling operations over symbolic splines; value of the result compared with the '
                'rescaled value of the operand', 1, assumptions=ABS),
    'P11': Prop([B.check_legendre, B.check_lagrange, B.check_0101, H.check_history_basis], 'abstract interpretation of the basis evaluation and derivative evaluation at a symbolic point; '
                'rational-function identity with the definition', 1, assumptions=ABS),
    'P12': Prop([B.check_legendre_dmat, B.check_lagrange_dmat, B.check_0101_dmat, B.check_lagrange_change, H.check_history_basis], 'abstract interpretation of the derivative matrices; the matrix applied to the '
                'symbolic basis is compared with the symbolic derivative of the basis', 1, assumptions=ABS),
    'P13': Prop([B.check_legendre_tau, B.check_lagrange_tau, B.check_0101_tau, H.check_history_basis], 'abstract interpretation of the interval-length derivatives of the basis with symbolic '
                'point and length; compared with symbolic differentiation', 1, assumptions=ABS),
    'P14': Prop([B.check_legendre_gram, B.check_lagrange_gram, B.check_0101_gram, H.check_history_basis], 'abstract interpretation of the Gram matrices and their length derivatives; compared with '
                'exact symbolic integrals of products of basis derivatives', 1, assumptions=ABS),
    'P15': Prop([B.check_copies], 'abstract interpretation of every copy, move and clone operation followed by every observer, compared with the observers '
                'of the source', 1, assumptions=ABS),
    'P16': Prop([K.check_unary, K.check_product, K.check_norm, K.check_value_at, K.check_approx, K.check_assign, K.check_copies], 'abstract interpretation of every operation of the collocation '
                'splines over symbolic node values; abstract state of the result, the operands and the target compared with the node-wise definition; operand metadata partitioned by one difference at a time', 1,
                assumptions=ABS + ['1 to 4 intervals, 2 and 3 nodes, 1 to 3 components']),
    'P17': Prop([Q.check_legendre_eval, Q.check_rule, Q.check_newton, Q.check_composite, Q.check_integral, Q.check_products, Q.check_path_integral], 'abstract interpretation of the quadrature code: '
                'polynomial identities in the evaluation point, symbolic interval lengths, abstract integrands; compared with the defining sums', 1, assumptions=ABS + ['convergence of the Newton iteration is not decided']),
    'P18': Prop([N.check_system, N.check_result, N.check_odd], 'abstract interpretation of the interpolator over an abstract basis, symbolic waypoints and given lengths: the linear system '
                'handed to the solver is compared, as a set of equations, with the equations that define the interpolant; argument partition for the guards', 1,
                assumptions=ABS + ['the sparse LU solver returns the solution of the system it is given', '1 to 5 intervals, 1 to 3 components, dimension 2 to 6']),
    'P19': Prop([N.check_coeff_deriv, N.check_sobolev], 'abstract interpretation of the seminorm, its gradient and the derivative of the coefficients over an abstract basis: right hand sides compared with the '
                'symbolic derivative of the system, results with the quadratic forms', 1,
                assumptions=ABS + ['the sparse LU solver returns the solution of the system it is given', 'Gram matrices are symmetric', '1 to 5 intervals, 1 to 3 components, dimension 2 to 6']),
    'P20': Prop([H.check_storage, H.check_members, H.check_history_leaf, H.check_history_expr, H.check_history_spline, H.check_history_basis], 'storage-class and effect lint over '
                'the type-checked program (every variable with static storage, every data member, every reference to them); abstract interpretation of call histories: '
                'the result after other calls is compared with the result of the first call', 1, assumptions=ABS),
    'P21': Prop([F.check_equality, F.check_factory, F.check_vector_ctor], 'abstract interpretation of the comparison and construction functions of the bases on a partition of names, '
                'dimensions and parameters; the observers of the constructed basis are compared with those of the basis built directly', 1, assumptions=ABS),
    'P22': Prop([F.check_approx], 'abstract interpretation of the comparison functions on symbolic numbers and on a partition of sizes and signs; '
                'the returned truth value is compared with the defining condition', 1, assumptions=ABS),
    'P23': Prop([R.check_continuity, R.check_derivative], 'abstract interpretation of the matrix builders and their caches over call histories; every entry compared with '
                'the symbolic derivative of the basis function at the end of the interval', 1, assumptions=ABS + ['1 to 5 intervals, 1 to 3 components, dimension 2 to 4, orders 0 to 4']),
}
