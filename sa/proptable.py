"""The properties, in the vocabulary of the library's users."""

LEVEL_NOTES = {
    '*': 'decides every enumerated overload and operand class over symbolic values; real arithmetic stands for floating point; an '
         'obligation outside the abstract domain is reported as undecided in the evidence, never as a violation',
}
FN = 'include/gsplines/Functions/'
SF = 'src/Functions/'


def P(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a}


PROPERTIES = [
    P('P01', 'Function algebra is pointwise',
      'For all functions f and g on which an operation is allowed, f+g, f-g, f*g, -f, number*f, f composed with g, f concatenated with g and the '
      'in-place forms +=, -=, *= evaluate, at every point of the domain and in every component, to the value obtained by evaluating the operands and '
      'combining the results, whatever kind of expression each operand already is and whichever operand is a temporary. A concatenation '
      'evaluates at each point the piece whose half-open interval contains it, its first piece at or before the start and its last piece at or after the end.',
      ['programs', 'inputs'], 'every operation, every const/rvalue overload, every pair of expression kinds, lists of parts of any length, every point',
      'tests build a handful of expressions and compare sampled points; the operators have one body per overload and branch on the kind of each operand',
      [SF + 'FunctionSum.cpp', SF + 'FunctionMul.cpp', SF + 'FunctionsComp.cpp', SF + 'FunctionsConcat.cpp', SF + 'FunctionGenericOperations.cpp',
       SF + 'FunctionBase.cpp', SF + 'FunctionExpression.cpp'],
      [('operator overloads', SF + 'FunctionSum.cpp, FunctionMul.cpp, FunctionsComp.cpp, FunctionsConcat.cpp'),
       ('operand list handlers', SF + 'FunctionGenericOperations.cpp'), ('evaluation', 'eval_*_functions')]),
    P('P02', 'Operations never change or alias their operands',
      'Combining, evaluating, differentiating, copying or negating functions leaves every operand that the caller still owns (anything not passed as a '
      'temporary) with the same value, domain, codomain and parts as before. The resulting function owns all its parts: it refers to no object owned by an operand.',
      ['programs', 'histories'], 'every operation and overload, every pair of expression kinds, including f op f on the same object',
      'tests do not re-evaluate operands after use, and an aliasing result works until an operand dies',
      [SF + 'FunctionGenericOperations.cpp', SF + 'FunctionSum.cpp', SF + 'FunctionMul.cpp', SF + 'FunctionsComp.cpp', SF + 'FunctionsConcat.cpp'],
      [('copy or move of parts', SF + 'FunctionGenericOperations.cpp'), ('in-place operators', 'operator+=, operator-=, operator*=')]),
    P('P03', 'Incompatible operands are rejected, compatible ones accepted',
      'Sum, difference, product and dot product of functions whose domain ends differ by more than the library tolerance (1e-9), sums, differences, dot products and '
      'concatenations with different codomain dimensions, products of two vector valued functions, in-place products by a vector valued function, compositions with a '
      'vector valued inner function and concatenations of non adjacent pieces all throw std::invalid_argument and leave the operands the caller still owns unchanged. '
      'Operands satisfying the conditions are accepted without an exception.',
      ['inputs', 'programs'], 'every operation and overload, every metadata case on either side of each condition',
      'tests exercise a few mismatches on a few overloads; each overload checks separately',
      [SF + 'FunctionSum.cpp', SF + 'FunctionMul.cpp', SF + 'FunctionsComp.cpp', SF + 'FunctionsConcat.cpp', SF + 'FunctionBase.cpp', SF + 'ElementalFunctions.cpp'],
      [('guards', 'sum_throw, compatibility_mul, comp_throw, concat_throw, dot_throw'), ('domain comparison', 'FunctionBase::same_domain')]),
    P('P04', 'Results carry the right domain and codomain dimension',
      'The function produced by every algebraic operation reports the domain and codomain dimension that follow from its operands: those of the operands for sums and '
      'differences, the dimension of the vector valued factor for products, the inner domain and outer dimension for compositions, and the span from the start '
      'of the first to the end of the second piece for concatenations; in-place operations update them likewise.',
      ['programs', 'inputs'], 'every operation and overload, every pair of expression kinds and dimensions',
      'metadata of results is asserted in few tests, always with equal domains',
      [SF + 'FunctionSum.cpp', SF + 'FunctionMul.cpp', SF + 'FunctionsComp.cpp', SF + 'FunctionsConcat.cpp'],
      [('result construction', 'FunctionExpression constructors called by the operators')]),
    P('P05', 'Derivatives of expressions follow the calculus rules',
      'The derivative of any order of a sum, difference, product, composition, concatenation or negation evaluates at every interior point to the mathematical derivative of '
      'the expression: termwise for sums, the product rule over all factors, the chain rule over all composed functions and piece by piece for concatenations. '
      'It keeps the domain and codomain dimension of the expression, order zero returns the function itself, and differentiating leaves the function unchanged.',
      ['programs', 'inputs'], 'every kind of expression, order of derivative, number of parts, point',
      'finite differences at sampled points on a few expressions, mostly first order',
      [SF + 'FunctionSum.cpp', SF + 'FunctionMul.cpp', SF + 'FunctionsComp.cpp', SF + 'FunctionsConcat.cpp', SF + 'FunctionExpression.cpp'],
      [('derivative constructors', 'deriv_sum_functions, deriv_mul_functions, deriv_compose_functions, deriv_concat_functions')]),
    P('P06', 'Elementary functions and their derivatives are exact',
      'Constants, identity, linear dilation, polynomials, exponential, sine, cosine and the dot product of two functions evaluate to their defining formula, and the derivative of '
      'every order of each evaluates to the formula of its mathematical derivative (including orders beyond the degree of a polynomial and the Leibniz rule for dot products). '
      'They report the domain they were built on and the dimension of their values, also after conversion to an expression, cloning, and differentiation through the generic interface.',
      ['inputs'], 'every elementary function, order of derivative, parameter value and point',
      'tests sample first derivatives of some functions; high orders, vector constants and dot product derivatives are not covered',
      [SF + 'ElementalFunctions.cpp', FN + 'ElementalFunctions.hpp', FN + 'FunctionBase.hpp', SF + 'FunctionBase.cpp'],
      [('formulas', 'value_impl and deriv_impl of each class'), ('generic entry points', 'FunctionBase::deriv, derivate, clone, to_expression')]),
    P('P07', 'A spline evaluates piecewise from its coefficients',
      'For every spline and every point t of its domain, component c of the value is the sum over the basis functions of coefficient (interval, component, j) times basis function j at the '
      'point s in [-1, 1] that t has inside the interval containing it, with the interval length passed to the basis. The breakpoints start at the start of the domain and advance by the interval lengths; the '
      'waypoints are the values at the breakpoints (at an interior breakpoint either adjacent interval may be used). A constructor given coefficients or interval lengths whose count does not match the other arguments throws std::invalid_argument.',
      ['inputs'], 'every number of intervals, components and basis functions, every coefficient and point, including breakpoints and both ends of the domain',
      'tests evaluate random splines at sampled points and compare with loose tolerances, seldom at breakpoints or with domains that do not start at zero',
      ['src/GSpline.cpp', 'include/gsplines/GSpline.hpp'],
      [('evaluation', 'GSplineBase::value_impl, get_interval, interval_to_window'), ('structure', 'get_domain_breakpoints, get_waypoints, constructors')]),
    P('P08', 'Derivative of a spline is the spline of derivatives',
      'The derivative of order k of a spline is a spline on the same breakpoints and basis whose every coefficient block is the order k derivative matrix of the basis applied to the '
      'original block, scaled by (2/length)^k where the basis works on [-1, 1]; it keeps domain and codomain dimension and order zero is the spline itself.',
      ['inputs'], 'every basis, order, number of intervals and components, coefficient values and interval lengths',
      'tests differentiate once or twice with mostly equal interval lengths and compare at sampled points',
      ['src/GSpline.cpp', 'include/gsplines/GSpline.hpp', 'include/gsplines/Functions/FunctionInheritanceHelper.hpp'],
      [('derivative', 'GSpline::deriv_impl'), ('per-basis derivative matrix', 'Basis::get_derivative_matrix_block')]),
    P('P09', 'Splines of one space form a vector space; equality sees every attribute',
      'Two splines are in the same vector space exactly when basis, domain, codomain dimension, number of intervals and interval lengths agree. Sums, differences (also in place) and scalar multiples and negation of splines have '
      'the coefficients and values of the corresponding combination and keep basis, domain and interval lengths; operands that are not consumed stay unchanged; operands of different spaces are rejected with '
      'std::invalid_argument. Equality holds exactly when all attributes and the coefficients agree to tolerance, and inequality is its negation.',
      ['inputs', 'programs'], 'every arithmetic and comparison overload (const and rvalue operands), every attribute in which two splines may differ',
      'tests add two random compatible splines; most overloads and most mismatching attributes are never exercised',
      ['src/GSpline.cpp', 'include/gsplines/GSpline.hpp'],
      [('arithmetic', 'GSplineBase/GSpline operator+ operator- operator* operator+= operator-='), ('comparison', 'operator==, operator!=, same_vector_space')]),
    P('P10', 'Time scaling preserves the path and honours the bounds',
      'Rescaling a spline to a new execution time yields a spline over [start, start + new time] whose interval lengths are scaled by a common factor and which takes, at corresponding times, the values of '
      'the original; a non positive time is rejected. Rescaling to maximum velocity and/or acceleration bounds yields a spline tracing the same path whose speed and acceleration, on the sampled time grid, do not exceed the bounds given.',
      ['inputs'], 'every spline, new duration and set of bounds (either or both given)',
      'tests scale one random spline with both bounds and check samples',
      ['src/GSpline.cpp', 'include/gsplines/GSpline.hpp'],
      [('scaling', 'GSpline::linear_scaling_new_execution_time, linear_scaling_new_execution_time_max_velocity_max_acceleration')]),
    P('P11', 'Basis functions and their derivatives match their definition',
      'At every point s in [-1, 1] and interval length the evaluation of the Legendre, Lagrange and 0101 bases gives the defining functions (Legendre polynomials; cardinal polynomials of the nodes; '
      'exponential-trigonometric-polynomial functions of the 0101 functional), and the derivative evaluation of order d gives the d-th derivative with respect to time, that is (2/length)^d times the derivative in s, '
      'including d = 0 and d beyond the dimension.',
      ['inputs'], 'every basis, dimension, parameter, order, point and interval length',
      'tests use a few dimensions and compare with finite differences or tabulated values',
      ['src/Basis/BasisLegendre.cpp', 'src/Basis/BasisLagrange.cpp', 'src/Basis/Basis0101.cpp'],
      [('evaluation', 'eval_on_window'), ('derivative evaluation', 'eval_derivative_on_window')]),
    P('P12', 'Derivative matrices are the derivatives of the basis',
      'The derivative matrix of order d of each basis maps the coefficients of a combination of basis functions to the coefficients of its d-th derivative in s: combining the basis with the mapped coefficients '
      'equals the d-th derivative of the original combination, for every d, including 0 and orders at or beyond the dimension. Lagrange change-of-nodes matrices map node values to node values of the same polynomial.',
      ['inputs'], 'every basis, dimension, set of nodes, parameter and order',
      'tests check small dimensions of one basis at order one or two',
      ['src/Basis/Basis.cpp', 'src/Basis/BasisLegendre.cpp', 'src/Basis/BasisLagrange.cpp', 'src/Basis/Basis0101.cpp'],
      [('matrices', 'get_derivative_matrix_block, get_derivative_matrix, legendre dmat, barycentric derivative_matrix, change_interpolation_points')]),
    P('P13', 'Sensitivity of the basis to the interval length is exact',
      'For each basis the evaluation of the derivative with respect to the interval length equals the partial derivative, with respect to that length at fixed s, of what the derivative evaluation of the same order returns.',
      ['inputs'], 'every basis, dimension, order, point and interval length',
      'finite differences at sampled lengths, for one or two orders',
      ['src/Basis/BasisLegendre.cpp', 'src/Basis/BasisLagrange.cpp', 'src/Basis/Basis0101.cpp'],
      [('evaluation', 'eval_derivative_wrt_tau_on_window')]),
    P('P14', 'Gram matrices are the inner products of the basis derivatives',
      'For each basis and derivative order d the matrix added by add_derivative_matrix has as entry (i, j) the integral over an interval of the given length of the d-th time derivatives of basis functions i and j, and '
      'the matrix added by add_derivative_matrix_deriv_wrt_tau is its derivative with respect to the length. (For the Lagrange basis the order zero product is the discrete one of its quadrature nodes; orders Basis0101 does not implement throw.) Both accumulate onto what the caller passes in.',
      ['inputs'], 'every basis, dimension, order and interval length',
      'tests compare a few dimensions and orders with numeric quadrature',
      ['src/Basis/BasisLegendre.cpp', 'src/Basis/BasisLagrange.cpp', 'src/Basis/Basis0101.cpp'],
      [('matrices', 'add_derivative_matrix, add_derivative_matrix_deriv_wrt_tau')]),
    P('P15', 'Copies and clones behave like their source and are independent of it',
      'A copy, a moved-to object or a clone of a basis answers every query (dimension, parameters, evaluation, derivatives, matrices) exactly as the source did, no matter which queries were made on the source before, and copying leaves '
      'the source answering as before. The answer to a query does not depend on which queries were made earlier on the same object.',
      ['histories', 'programs'], 'every class, way of copying, and query history before the copy',
      'tests clone fresh objects and compare one query',
      ['include/gsplines/Basis/', 'src/Basis/Basis.cpp', 'src/Basis/Basis0101.cpp', 'src/Basis/BasisLagrange.cpp', 'src/Basis/BasisLegendre.cpp'],
      [('copying', 'copy and move constructors, clone, move_clone')]),
    P('P16', 'Collocation splines act on their node values',
      'A Gauss-Lobatto-Lagrange spline holds the values of its components at the Gauss-Lobatto nodes of each interval. Approximating a function, building one from a function or from the identity, and assigning a function store the '
      'values of that function at those nodes of the stated intervals; product (scalar by scalar or scalar by vector), norm, power, number/s, number*s, negation and adding or subtracting a vector act value by value; value_at(i) and '
      'get_domain_discretization() give the values and the nodes in time order. Domain, interval lengths and codomain of the result are those of the operands, operands that are not temporaries stay unchanged, '
      'and assignments copy values, domain and interval lengths. Operands with different nodes, intervals or domains, wrong vector sizes, powers of or division by non-scalar splines and '
      'indices past the end throw std::invalid_argument; a rejected assignment leaves the target unchanged.',
      ['inputs', 'programs'], 'every operator overload (const and rvalue), number of intervals, nodes and components, unequal interval lengths, every node value',
      'tests compare a few random splines on equal intervals against the function algebra',
      ['src/Collocation/GaussLobattoLagrange.cpp', 'include/gsplines/Collocation/GaussLobattoLagrange.hpp'],
      [('algebra', 'operator*, operator+, operator-, operator/, norm, pow'), ('approximation', 'approximate, identity, operator=(FunctionBase)'), ('access', 'value_at, get_domain_discretization')]),
    P('P17', 'Integrals and inner products are the Gauss-Lobatto sums',
      'legendre_gauss_lobatto_points/weights(n) contain the end points -1 and 1, are symmetric, have weights 2/(n(n-1) L(x)^2) with L the Legendre polynomial of degree n-1, and are exact for 2 and 3 points; q_and_evaluation(t, n) is '
      '(L_{n+1}-L_{n-1}, its derivative, L_n) at t for n >= 2 and interior nodes are refined by Newton steps on it. On several intervals the points of each interval are mapped onto it and the weights are multiplied by half its length. '
      'integral(f, n, m) is the sum of weight times value over the nodes of m equal intervals of the domain of f and throws std::invalid_argument unless f is scalar. l2_norm, l2_inner_product, sobolev_norm, sobolev_inner_product and their semi '
      'variants are the integrals of the weighted sums of dot products of the derivatives asked for (the norms are the squared ones).',
      ['inputs'], 'every function, domain, number of nodes and intervals, list of (order, weight) terms',
      'tests integrate a few smooth functions on one interval and compare within a tolerance that hides misplaced nodes',
      ['src/Collocation/GaussLobattoPointsWeights.cpp', 'src/FunctionalAnalysis/Integral.cpp', 'src/FunctionalAnalysis/Sobolev.cpp'],
      [('nodes and weights', 'legendre_gauss_lobatto_points_and_weights and overloads, q_and_evaluation'), ('integral', 'functional_analysis::integral'), ('inner products', 'sobolev_*, l2_*')]),
    P('P18', 'Interpolation passes through the waypoints with the required smoothness',
      'For a basis of even dimension N, interval lengths and waypoints, Interpolator::interpolate and interpolate return the spline on [0, sum of the lengths], with those lengths and that basis, whose coefficients solve exactly the system: interval i takes '
      'waypoint i at its start and waypoint i+1 at its end in every component; derivatives 1 to N-2 are continuous at every interior waypoint; derivatives 1 to N/2-1 are zero at both ends. The result does not depend on problems solved before with the same object. '
      'Lengths that are not positive or not one per interval, waypoints of the wrong shape, a basis of odd dimension and a system whose factorisation fails throw.',
      ['inputs', 'histories'], 'every number of intervals and components, even dimension, lengths, waypoints, basis, and previous use of the object',
      'tests interpolate random waypoints with one or two bases and check positions within a tolerance',
      ['src/Interpolator.cpp', 'include/gsplines/Interpolator.hpp'],
      [('system', 'fill_interpolating_matrix, fill_interpolating_vector, fill_*_block, fill_buffers'), ('result', 'solve_interpolation, interpolate')]),
    P('P19', 'Sobolev seminorm of the interpolant and its gradient',
      'SobolevNorm(waypoints, basis, weights)(lengths) is the sum over intervals, components and (order, weight) terms of weight times the Gram form of that order on the coefficients of the interpolant for these lengths, and '
      'deriv_wrt_interval_len writes for every interval its exact derivative with respect to that length: the form with the length derivative of the Gram matrix plus twice the form of the coefficients with their derivatives, where get_coeff_derivative_wrt_tau(y, lengths, i) solves A x = -(dA/dlength_i) y. '
      'Neither depends on earlier calls on the same object.',
      ['inputs', 'histories'], 'every number of intervals and components, dimension, list of terms, lengths, waypoints and call history',
      'tests compare the gradient with finite differences for a few sizes and a single order',
      ['src/FunctionalAnalysis/Sobolev.cpp', 'src/Interpolator.cpp'],
      [('seminorm', 'SobolevNorm::operator(), inner_prod'), ('gradient', 'deriv_wrt_interval_len, Interpolator::get_coeff_derivative_wrt_tau')]),
    P('P20', 'Objects are independent: no hidden shared state',
      'Every object owns its parts and data: no class of the library holds another object through a shared or non-owning pointer or reference. No function of the library modifies '
      'storage that is shared between objects and threads (global, static member or static local variables) except thread-local or atomic variables or under a lock, so that threads working on different '
      'objects never race. The value, derivative or matrix obtained from an object does not depend on calls made earlier on it or on other objects.',
      ['schedules', 'histories', 'programs'], 'every function, class and variable of the library; every interleaving of threads on different objects; every earlier call',
      'tests are single threaded and use each object once; a shared buffer gives the right answer as long as the calls do not overlap or repeat with other sizes',
      ['src/', 'include/gsplines/'],
      [('static storage', 'Tools.cpp last_error, FunctionExpression counters'), ('ownership', 'GSplineBase::basis_, Interpolator::basis_, SobolevNorm::basis_, FunctionExpression::function_array_')]),
    P('P21', 'Bases compare equal exactly when they are the same basis, and a name builds the right one',
      'Two bases are equal exactly when they are of the same kind, have the same dimension and the same parameters (real parameters within a relative 1e-6); != is the negation and both are symmetric. '
      'get_basis(name, dim, parameters), with the parameters as a vector of Eigen or of the standard library, and the get functions of the classes return a basis with that name, dimension and parameters whose functions and derivatives are those '
      'of the basis constructed directly, so that a basis rebuilt from its name, dimension and parameters equals the original; an unknown name, or a basis0101 without exactly one parameter, throws std::invalid_argument. '
      'BasisLagrange built from a std::vector of points is the one built from the Eigen vector.',
      ['inputs'], 'every pair of kinds, dimensions and parameters',
      'tests compare a basis with itself and build one or two by name',
      ['src/Basis/Basis.cpp', 'src/Basis/BasisLagrange.cpp', 'src/Basis/BasisLegendre.cpp', 'include/gsplines/Basis/Basis.hpp'],
      [('equality', 'Basis::operator=='), ('by name', 'get_basis, BasisLegendre::get, BasisLagrange::get')]),
    P('P22', 'Approximate comparison is symmetric and scale aware',
      'tools::approx_equal(a, b, tol) of two numbers holds exactly when |a-b| < tol if one of |a|, |b| is below tol, and |a-b| < tol times both |a| and |b| otherwise. For matrices the same condition is applied to the '
      'largest absolute entries of the difference and of the operands, and matrices of different shape are never equal, while two empty matrices of the same shape are. Two splines are approximately equal when their coefficients, start and interval lengths are and their bases are equal. '
      'approx_zero(x, tol) holds exactly when every entry (coefficient) is below tol in absolute value, false for an empty matrix. No comparison depends on the order of its operands.',
      ['inputs'], 'every pair of numbers, matrices and splines, every tolerance',
      'tests only use the functions as oracle; a comparison that accepts too much makes every test pass',
      ['src/Tools.cpp', 'include/gsplines/Tools.hpp'],
      [('equality', 'tools::approx_equal overloads'), ('zero', 'tools::approx_zero overloads')]),
    P('P23', 'Continuity and derivative matrices act on the coefficients of a spline as stated',
      'For the Legendre and Lagrange bases and every list of interval lengths: continuity_matrix(n, c, k, lengths) times the coefficients of a spline with n intervals and c components is, for derivative orders 0 to k (outermost), interior breakpoints and components (innermost), the value of that '
      'derivative at the end of the left interval minus its value at the start of the right one; gspline_derivative_matrix(n, c, k, lengths) times the coefficients are the coefficients of the k-th derivative of the spline. '
      'The matrices depend only on the arguments of the call and never on matrices built before for other sizes, orders or lengths.',
      ['inputs', 'histories'], 'every number of intervals and components, order, interval lengths, and sequence of earlier calls on the same basis',
      'tests build each matrix once, mostly for equal lengths, so that a stale cache or a wrong scaling of one interval is invisible',
      ['src/Basis/Basis.cpp', 'include/gsplines/Basis/Basis.hpp'],
      [('continuity', 'Basis::continuity_matrix'), ('derivative', 'Basis::gspline_derivative_matrix')]),
    P('P24', 'Gauss-Lobatto nodes are accurate to rounding error for every number of nodes',
      'For every number of nodes the iteration that refines the interior Gauss-Lobatto nodes converges to distinct roots of the derivative of the Legendre polynomial, so that the rule integrates polynomials up to degree 2n-3 up to rounding error, and '
      'the barycentric and three-term evaluations built on the nodes lose no more than a moderate multiple of the rounding error.',
      ['inputs'], 'every number of nodes', 'tests use a few numbers of nodes',
      ['src/Collocation/GaussLobattoPointsWeights.cpp', 'src/Basis/BasisLagrange.cpp'],
      [('iteration', 'legendre_gauss_lobatto_points_and_weights')]),
    P('P25', 'The optimiser returns a minimiser of the Sobolev seminorm with the given execution time',
      'optimal_sobolev_norm and its named variants return the interpolant of the waypoints with positive interval lengths that add up to the given execution time and with a seminorm no larger than for equal lengths.',
      ['inputs'], 'every set of waypoints and execution time', 'tests solve a few problems',
      ['src/Optimization/ipopt_solver.cpp', 'src/Optimization/ipopt_interface.cpp'],
      [('optimiser', 'optimization::optimal_sobolev_norm')]),
]
NOT_APPLICABLE = {
    'P24': 'convergence and rounding of a floating-point iteration depend on runtime quantities that no static argument in reach bounds; what is structural in the rule (end points, symmetry, weights formula, Newton step on the right polynomial, '
           'exact rules with 2 and 3 nodes) is decided under P17',
    'P25': 'the optimum is found at run time by Ipopt, whose headers and library are not installed here: the sources are not part of the build and cannot be type-checked; the objective and gradient they pass to it are decided under P19',
}
