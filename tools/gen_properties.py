import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "stator/symbolic/"
p("P01", "Polynomial ring operations are exact",
  "For polynomials f and g of any coefficients (and any, possibly different, orders), expanding f+g, f-g, f*g, -f, c*f, f*c, f+c, c-f, f/c (c a nonzero constant), pow(f,n) and multiplication by the variable gives a polynomial whose value at every point x is the corresponding arithmetic of the values f(x) and g(x). Construction from a coefficient list or range, conversion to a higher order and change_order keep the coefficient of every retained power and zero-fill the rest, and a list or range that is too long is rejected with an exception.",
  ["inputs"], "all coefficient values and all evaluation points, in exact arithmetic; operand orders 0 to 5 per instantiation",
  "a test fixes coefficients; an index or sign error can cancel for those values",
  [S+"polynomial.hpp", S+"simplify.hpp", S+"binary_ops.hpp"],
  [("Polynomial constructors, change_order", S+"polynomial.hpp"), ("simplify of Polynomial BinaryOp", S+"simplify.hpp")])
p("P02", "Polynomial evaluation agrees with the polynomial it represents",
  "sub(f, x=t) returns sum f[i] t^i for every finite t; for t = +inf or -inf it returns the infinity carrying the sign of the limit of f (or f[0] when all other coefficients are zero). Substituting another variable returns f unchanged, substituting Null returns f[0], substituting a variable renames it; eval_derivatives<D>(f,t) returns the value and the first D derivatives of f at t, with zeros above the order of f.",
  ["inputs"], "all coefficients including zero leading coefficients, all finite t and both infinities; orders 0 to 6",
  "tests evaluate a handful of polynomials at a handful of points, infinities with even/odd leading zero coefficients are hardly sampled",
  [S+"polynomial.hpp", S+"sub.hpp"], [("sub(Polynomial, EqualityOp)", S+"polynomial.hpp"), ("eval_derivatives", S+"polynomial.hpp")])
p("P03", "Polynomial calculus and transformations are exact identities",
  "derivative(f,x) is the formal derivative (Null for another variable), shift_function(f,t) is f(x+t) for every t including the Unity form, invert_taylor_shift(f) is (x+1)^d f(1/(x+1)), reflect_poly(f) is f(-x), scale_poly(f,a) is f(a x). deflate_polynomial(f,r) for a root r of f (zero, nonzero, any order >= 1, any mixture of its forward and backward recurrences) returns g with f = (x-r) g.",
  ["inputs"], "all coefficients, shifts, scales and roots in exact arithmetic; orders 0 to 6",
  "the identities must hold for all coefficients; deflation picks among exponentially many recurrence orders depending on the data",
  [S+"polynomial.hpp", S+"precision.hpp"], [("shift_function, invert_taylor_shift, reflect_poly, scale_poly, deflate_polynomial, derivative", S+"polynomial.hpp")])
p("P04", "Euclidean division of polynomials",
  "gcd(f,g) returns (q,r) with f = q g + r identically in x and deg r < deg g, for every f and every nonzero g including divisors whose leading coefficients are zero, and division by the constant polynomial 0 yields an infinite quotient and zero remainder. The remainder used for Sturm chains is exactly the negated remainder.",
  ["inputs"], "all coefficients, all patterns of zero leading coefficients of the divisor; orders up to 5 by 4",
  "zero leading coefficients select different recursive instantiations that tests touch at single points",
  [S+"polynomial.hpp"], [("gcd, detail::mrem", S+"polynomial.hpp")])
p("P05", "Real roots returned for low-order polynomials are right, complete and sorted",
  "For polynomials of order at most 2, solve_real_roots returns in increasing order exactly the real zeros, each once (none for a constant), including when leading coefficients are zero. For order 3 the closed-form special cases return actual roots and the result is sorted; for higher orders a zero leading coefficient falls back to the lower-order solver, a zero constant term keeps x=0 among the roots, and the result is exactly the positive roots found for f and the negated positive roots found for f(-x), sorted.",
  ["inputs"], "all coefficient values with the monic linear coefficient below sqrt(DBL_MAX); higher orders modulo the contract of the positive-root finder",
  "each case split (signs, zero coefficients, discriminant) needs its own input",
  [S+"polynomial.hpp"], [("solve_real_roots overloads", S+"polynomial.hpp")])
p("P06", "Sturm, Descartes, Budan and Alesina-Galuzzi counts are the counts they claim",
  "sturm_chain(f) is p0=f, p1=f', p(k+1) = -rem(p(k-1),p(k)), its sign_changes(x) counts the sign changes of the chain at x with zeros ignored (also at infinite x), and roots(a,b) is the absolute difference of the counts at a and b. descartes_rule_of_signs counts sign changes of the nonzero coefficients, and budan_01_test and alesina_galuzzi_test are that count for the polynomial transformed so that (0,1), respectively (a,b), maps to (0,inf).",
  ["inputs"], "all coefficients, all points and intervals; orders 1 to 5",
  "zeros inside the sequences and infinite arguments give combinatorially many cases",
  [S+"polynomial.hpp"], [("SturmChain, sturm_chain, descartes_rule_of_signs, budan_01_test, alesina_galuzzi_test", S+"polynomial.hpp")])
p("P07", "Root bounds and Moebius bookkeeping are sound",
  "LMQ_upper_bound(f) is above every positive real root of f and LMQ_lower_bound(f) is below every positive real root. MobiusTransform eval/shift/scale/invert_taylor_shift compose exactly with the polynomial transformations of the same name: after transforming f and M alike, a root y of the transformed polynomial is the root M(y) of the original. Given the sign rules of Descartes and Budan, the intervals returned by VCA_real_root_bounds (for roots that are not themselves a bisection point) and VAS_real_root_bounds contain every positive root of f, never two different roots in one interval, with finite, ordered ends.",
  ["inputs"], "all coefficients of orders 1 to 3 (bounds), 2 to 5 (isolation); VCA/VAS by induction over recursion and restart loop, for every one or two distinct positive roots and every Moebius transformation",
  "a wrongly composed transformation only shows for polynomials that need the corresponding subdivision",
  [S+"polynomial.hpp"], [("LMQ_upper_bound, LMQ_lower_bound, MobiusTransform, VCA_real_root_bounds(_worker), VAS_real_root_bounds(_worker)", S+"polynomial.hpp")])
p("P08", "Iterative root refinement stays in its bracket and reports success honestly",
  "bisection returns true only with an x inside the initial bracket that is an exact zero or lies within the requested relative precision of an evaluated sign-changing sub-bracket, and refuses inverted, infinite or same-sign brackets. Each Newton, Halley, Schroeder and bisection step, from an x within its bounds, returns failure without moving x, or moves x strictly inside the current bounds to the point prescribed by its formula with the state re-evaluated at the new x and the bounds only ever tightened, and Halley's step fails when it points against the Newton step; newton_raphson/halleys_method return true only at a zero or after a step below the requested precision.",
  ["inputs", "histories"], "every function (uninterpreted), every starting point and bounds, every number of iterations (loop invariants)",
  "the loops run an input-dependent number of times over arbitrary functions",
  [S+"numeric.hpp"], [("bisection, newton_raphson, halleys_method, *_step, process_iterative_step", S+"numeric.hpp")])
p("P09", "StackVector behaves as a bounded sequence",
  "StackVector<T,N> behaves as a sequence of at most N elements: push_back appends, pop_back removes and returns the last, size/empty/begin/end/indexing/iteration agree with the contents, construction and assignment from lists, ranges and smaller StackVectors copy exactly (a longer initializer list keeps its first N elements), equality compares sizes and elements. In debug builds (STATOR_DEBUG) operations that would exceed the capacity, read past the end or pop from an empty vector throw instead of touching memory outside the object; in release builds valid operations never touch memory outside it.",
  ["inputs", "histories"], "every state (size and contents) reachable, one operation from an arbitrary state",
  "unit tests follow one history; the guarantee is per state",
  ["stator/orphan/stack_vector.hpp"], [("StackVector", "stator/orphan/stack_vector.hpp")])
p("P10", "Arrays address, resize and combine element-wise",
  "Array addressing maps distinct coordinates inside the dimensions to distinct storage slots, iteration visits them in storage order, and initializer, push_back and resize keep sizes, dimensions and existing contents consistent; an initializer list that does not match the dimensions, and a resize beyond fixed storage, is rejected leaving the dimensions as they were. Element-wise +,-,*,/ between arrays of equal dimensions, between array and scalar on the right (on either side for *), derivative and simplify apply the operation to every element and operands of different dimensions are rejected.",
  ["inputs"], "all element values and scalars; address formulas for all dimensions, distinctness for dimensions up to 63",
  "the indexing identity must hold for all coordinates and shapes",
  [S+"array.hpp", S+"array_rt.hpp"], [("Addressing, Array, detail::elementwiseop*", S+"array.hpp")])
p("P11", "Automatic differentiation returns Taylor coefficients",
  "ad<Nd>(f, x=a) returns the Taylor coefficients f^(k)(a)/k! for k=0..Nd of every expression built from constants, the variable, +,-,*,/, powers with constant or expression exponent, exp, log, sin and cos, both for compile-time and runtime expressions. Each operator's rule is correct for arbitrary Taylor coefficients of its operands.",
  ["inputs", "programs"], "all operand coefficient vectors at orders Nd=0..4, hence by induction every expression",
  "a wrong coefficient in one term of a recurrence only shows for operands with that coefficient nonzero at that order",
  [S+"ad.hpp"], [("ad overloads, detail::ad_pow, ADRT_visitor", S+"ad.hpp")])
p("P12", "Compile-time constants do exact rational arithmetic",
  "C<n,d> arithmetic (+,-,*,/, unary, ==, abs, Factorial, InvFactorial, conversion to double and toArithmetic) is exact rational arithmetic, operations with Null and Unity are the algebraic identities, and sin/cos of multiples of pi and pi/2 give the exact mathematical values.",
  ["programs"], "the listed constant families, decided at compile time for each instantiation and for all runtime operands",
  "template instantiations not written in a test are never compiled",
  [S+"constants.hpp", "stator/constants.hpp"], [("C, operator+-*/, sin_Cimpl, cos_Cimpl, Factorial", S+"constants.hpp")])
p("P13", "Compile-time expressions evaluate, differentiate and simplify consistently",
  "For compile-time expressions, sub(f, x=a) equals the mathematical value with every operand order and operator kept, derivative(f,x) evaluated at a equals the mathematical derivative for every operator and function rule, and simplify/expand, taylor_series and integrate preserve (respectively approximate to the stated order, or invert differentiation of) the value of the expression at every point.",
  ["programs", "inputs"], "every operator and function rule instantiated with generic operands, all operand values",
  "tests check a printed form or one numeric point per rule",
  [S+"binary_ops.hpp", S+"unary_ops.hpp", S+"simplify.hpp", S+"sub.hpp", S+"taylor.hpp", S+"integrate.hpp"],
  [("derivative/sub/simplify overloads", S+"binary_ops.hpp"), ("TaylorSeriesWorker", S+"taylor.hpp"), ("integrate", S+"integrate.hpp")])
p("P14", "Runtime derivative is the mathematical derivative",
  "For every runtime expression f and variable x, derivative(f,x) denotes the mathematical derivative of f with respect to x wherever the operators are differentiable: constants and other variables give 0, x gives 1, every binary operator follows its sum, product, quotient or power rule, every function its chain rule (an exact zero factor annihilates), arrays and dictionaries are differentiated element-wise, units are kept, and an uncertainty, which has no rule, is rejected. f itself and its subexpressions are never modified.",
  ["programs", "inputs"], "every node kind over arbitrary subexpressions (induction over the expression tree), all real values of the variables",
  "expression trees are unbounded; a wrong term can vanish at tested points",
  [S+"runtime.hpp", S+"binary_ops.hpp", S+"unary_ops.hpp"], [("DerivativeRT visitor and derivative overloads", S+"runtime.hpp")])
p("P15", "Runtime substitution replaces exactly the requested variables",
  "sub(f, x=e), sub(f, dict) and sub(f, expression=e) return an expression whose value is f with every occurrence of the named variable(s) replaced by the given expression (in the values, not the keys, of dictionaries), all others kept and operand order kept, and whose simplification is a number when everything is known; fast_sub agrees with sub on numeric expressions and throws for others. The input expression, the replacement and shared subexpressions are left unmodified.",
  ["programs", "inputs"], "every node kind over arbitrary subexpressions, all values",
  "aliasing and operand-order errors need particular tree shapes",
  [S+"runtime.hpp"], [("SubstituteRT, SubstituteDictRT, SubstituteExprRT, FastSubRT", S+"runtime.hpp")])
p("P16", "Runtime simplification preserves value",
  "simplify(f) denotes the same function as f wherever f is defined, for every node kind, every identity/zero element shortcut, constant folding and both operand positions; its result is never a different constant or operand, and f is not modified. Arrays are simplified and combined element by element (a number stands for the array of that number), array operands of different size are rejected for +,-,* and /, a value with units stands for value times unit, an exact zero factor annihilates, and whatever has no evaluation rule is left as it is.",
  ["programs", "inputs"], "every node kind over arbitrary (opaque or constant) operands, all values",
  "identity and zero rules fire on special constants in one operand position only",
  [S+"runtime.hpp", S+"simplify.hpp"], [("SimplifyRT", S+"runtime.hpp")])
p("P17", "Runtime equality is a congruence consistent with hashing and dispatch",
  "Two runtime expressions compare equal exactly when they are the same kind of node with equal parts (structural equality, distinguishing operators, operand order, names and constants), equality is reflexive and symmetric, and equal expressions have equal hashes. Visiting a node always calls the handler of its own kind and never falls through to an unhandled-type error.",
  ["programs", "inputs"], "all pairs of node kinds over arbitrary parts",
  "pairs of node kinds are quadratic and the operands unbounded",
  [S+"runtime.hpp", S+"binary_ops_rt.hpp", S+"unary_ops_rt.hpp", S+"constants_rt.hpp", S+"variable_rt.hpp", S+"dict_rt.hpp", S+"array_rt.hpp"],
  [("RTBase::visit, RTBaseHelper::compare, Expr::operator==, std::hash<Expr>", S+"runtime.hpp")])
p("P18", "Parsing follows the documented grammar and precedence",
  "For every combination of operators, unary minus, functions, parentheses, lists, dictionaries, array accesses and units Expr(text) builds the tree given by the declared binding powers and associativities: an operator takes its right operand with the declared right power, a unary sign binds just above addition (so 2^-x*y is 2^(-(x*y))), a function name takes the next operand, any operator may follow a closed [..] or {..}. Numbers representable as double keep their value, identifiers (letters, other than the function names) their name, and spaces are insignificant. Every other text is rejected with an exception, and no byte string makes the parser read outside the text or crash (nesting depth being limited by the stack only).",
  ["inputs"], "all operator pairs and triples; all byte strings up to a stated bounded length",
  "the space of strings is unbounded",
  [S+"parser.hpp"], [("ExprTokenizer, parse_expression", S+"parser.hpp")])
p("P19", "Printed expressions read back as the same expression",
  "repr(f) of a runtime expression that the input syntax can express (finite constants, names made of letters, all operators and functions except abs and arbsign, lists, dictionaries, units) parses back to an expression with the same value for every nesting: parentheses are printed wherever the binding powers of a child, or the sign of a negative number, would otherwise change the tree.",
  ["programs", "inputs"], "all nestings of two operators on either side, over arbitrary leaves",
  "whether parentheses are needed depends on combinations of operators, side and associativity",
  [S+"runtime.hpp", S+"binary_ops.hpp", "stator/repr.hpp"], [("ReprVisitor, BPVisitor, repr", S+"runtime.hpp")])
p("P20", "Unit-carrying arithmetic transforms values and units together",
  "For values l and r carrying units U and V, l*r carries value l*r and units U*V, l/r carries value l/r and units U/V, and multiplying by a plain factor on either side scales the value and keeps the units, both for compile-time nodes and for the simplified runtime expression; uncertainty and units nodes keep the operand order.",
  ["inputs"], "all values and units",
  "operand mix-ups are invisible when tests use symmetric values",
  [S+"units.hpp", S+"uncertainty.hpp"], [("multiply_impl/operator/ of UnitsOp", S+"units.hpp")])
p("P21", "Python binding operators and conversions call the matching C++ operation",
  "Each Python operator, method and conversion bound in the extension module (+,-,*,/,** and their reflected forms, comparisons, negation, functions, sub, derivative, simplify, numeric conversion) computes the C++ operation it names with the operands in Python's order: a op b, and for a reflected method b.__rop__(a) = a op b.",
  ["inputs", "programs"], "every bound callable, arbitrary operands",
  "the Python tests need an interpreter build and sample single operand pairs",
  ["pysrc/stator/core.cpp"], [("PYBIND11_MODULE", "pysrc/stator/core.cpp")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
