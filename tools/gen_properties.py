"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib

A = 'autobound/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext),
      why_tests_cant=why,
      anchors=dict(
          files=files,
          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
          mechanism=[dict(name=n, where=w) for n, w in mech],
          observe_at=observe or [],
          hook_needed=None)))


prop('C01', 'Bounds of scalar-input functions contain the function everywhere',
     'For every function of a scalar built from supported operations (arithmetic, powers, exp, log, abs, roots, sigmoid, softplus, swish), every reference point, every trust region containing it, every maximum degree that its operations support and either trust-region-propagation mode, the polynomial bounds that taylor_bounds returns satisfy lower(x) <= f(x) <= upper(x) at every x of the trust region where f is defined, up to floating-point roundoff (of the normalised remainder: the part of a trust region on either side of the reference point is assumed to be empty or not tiny). '
     'When the bounds of every intermediate stay inside the domain of the operation applied to it and f is differentiable at the reference point, a bound is actually produced (no exception, no NaN).',
     ['programs', 'inputs', 'configurations'],
     'all compositions of supported operations, all reference points and trust regions (including one-sided and degenerate ones), all degrees, both propagation modes',
     'jax_bound_test compares a fixed list of about 50 programs at one point and one region each with hard-coded coefficients; it never evaluates the bound over the region, and composes at most two non-trivial operations.',
     [A+'jax/jax_bound.py', A+'enclosure_arithmetic.py', A+'primitive_enclosures.py', A+'interval_arithmetic.py', A+'polynomials.py', A+'elementwise_functions.py'],
     [('taylor_bounds interprets the jaxpr with one enclosure per variable', A+'jax/jax_bound.py:taylor_bounds'),
      ('pushforward functions per primitive', A+'jax/jax_bound.py:_pushforward_funs'),
      ('TaylorEnclosureArithmetic', A+'enclosure_arithmetic.py')],
     ['autobound.jax.taylor_bounds(f, d, propagate)(x0, region)'])

prop('C02', 'Bounds of array functions: right shape, right element, contain f',
     'For functions of a scalar or vector input that move, broadcast, reduce or combine array elements (reshape, transpose, squeeze, sum, broadcasting, matrix products and general dot products with batch and contracting dimensions, convolutions of functions of a scalar), taylor_bounds returns bounds, and whenever it does, each bound has exactly the shape of f(x) and contains f(x) element by element for every x in the trust-region box. '
     'The coefficient of degree one, when it is not an interval, is the Jacobian of f at the reference point with the input axis last.',
     ['programs', 'inputs', 'configurations'],
     'all small array programs over the shape-moving and bilinear operations, input dimensions 0 to 3, all degrees, all boxes and lattice points in them',
     'The tests feed all-ones matrices (which hide transposed or misplaced axes), have a TODO for batch dimensions and for non-scalar inputs, and compare one coefficient tuple per program.',
     [A+'jax/jax_bound.py', A+'enclosure_arithmetic.py', A+'interval_arithmetic.py'],
     [('dot_general / conv pushforward with axis permutation', A+'jax/jax_bound.py:_dot_general_pushforward_fun'),
      ('pass-through of linear primitives', A+'jax/jax_bound.py:_pass_thru_pushforward_fun'),
      ('broadcast_in_dim pushforward', A+'jax/jax_bound.py:_broadcast_in_dim_pushforward_fun'),
      ('bilinear combination of enclosures', A+'enclosure_arithmetic.py:TaylorEnclosureArithmetic.arbitrary_bilinear')],
     ['taylor_bounds(...).coefficients', 'TaylorBounds.lower/upper'])

prop('C03', 'Coefficients below the last are the exact Taylor coefficients',
     'The result of taylor_bounds with maximum degree d has at most d+1 coefficients; all but the last equal the Taylor coefficients of f at the reference point, so that for d >= 1 lower and upper bound both equal f at the reference point. '
     'A function that is a polynomial of degree at most d (built by sums, products and non-negative integer powers) is represented exactly, with no interval coefficient of positive width, and the final coefficient always contains the Taylor coefficient of its degree.',
     ['programs', 'inputs', 'configurations'],
     'all compositions of supported smooth operations, all reference points, all degrees, both propagation modes',
     'The tests check hand-computed coefficients for single operations up to degree 2; coefficients of degree 3 and more through compositions are never compared with a derivative.',
     [A+'jax/jax_bound.py', A+'enclosure_arithmetic.py', A+'primitive_enclosures.py', A+'polynomials.py', A+'elementwise_functions.py'],
     [('composition of enclosures', A+'enclosure_arithmetic.py:TaylorEnclosureArithmetic.compose_enclosures'),
      ('multinomial power', A+'polynomials.py:integer_power'),
      ('Taylor coefficients of primitives', A+'elementwise_functions.py:get_taylor_polynomial_coefficients')],
     ['taylor_bounds(...).coefficients'])

prop('C04', 'Unsupported functions are refused, never silently mis-bounded',
     'For any JAX function whatever - using unsupported primitives, casts, comparisons, selections, control flow, nested jit or custom-derivative calls, or supported primitives with unusual parameters, dtypes or configurations - taylor_bounds either raises an exception or returns bounds that contain the function on the trust region. '
     'It never returns bounds that exclude a value f takes there.',
     ['programs', 'configurations'],
     'all one-argument functions of the jax.numpy, jax.lax and jax.nn namespaces and small programs built around them, all degrees and propagation modes',
     'No test asks for bounds of an unsupported function, or of a function containing a nested jit around something non-linear.',
     [A+'jax/jax_bound.py', A+'jax/jaxpr_editor.py'],
     [('refusal of primitives without a pushforward', A+'jax/jax_bound.py:taylor_bounds'),
      ('set of primitives treated as linear', A+'jax/jax_bound.py:_PASS_THRU_PRIMITIVES'),
      ('jaxpr rewrite rules recognising sigmoid/softplus/swish', A+'jax/jax_bound.py:_rewrite_jaxpr')],
     ['taylor_bounds on every namespace function'])

prop('C05', 'Interval arithmetic is inclusion-correct and tightest where claimed',
     'Every interval operation (add, subtract, negative, multiply, power, outer product and power, tensordot, arbitrary bilinear maps) applied to intervals or arrays of any shapes with finite end points returns an interval with lower <= upper containing the result of the operation on every choice of members, and shrinking an input never enlarges the output. '
     '(Bilinear maps are those that add up products of elements: dot products, contractions, convolutions. Results too large for the type are infinite; sums of several products one of which overflows are left out.) Add, subtract, negative, elementwise and outer products, non-negative powers, and the diagonal of squared vectors return the tightest such interval, and so do tensor contractions of an interval array with a point array.',
     ['inputs', 'histories'],
     'all operand intervals and shapes, all exponents, all sequences of operations',
     'interval_arithmetic_test compares a few dozen end-point examples; sign patterns of both operands, zero-touching intervals, mixed interval/array operands and higher ranks are sampled once or not at all.',
     [A+'interval_arithmetic.py'],
     [('IntervalArithmetic.arbitrary_bilinear', A+'interval_arithmetic.py'), ('IntervalArithmetic.power', A+'interval_arithmetic.py'),
      ('IntervalArithmetic.outer_power / outer_product', A+'interval_arithmetic.py')],
     ['IntervalArithmetic(np) and IntervalArithmetic(jnp) methods'])

prop('C06', 'Arithmetic on Taylor enclosures is sound for any operation sequence',
     'If two Taylor enclosures with finite coefficients contain quantities u(x) and v(x) throughout the trust region, then the enclosure returned for u+v, u-v, -u, u*v, u/v, u**p or any bilinear map of them that adds up products of elements (dot products, contractions, convolutions) contains the corresponding quantity throughout the trust region, for any maximum degree, and has degree at most the maximum degree. '
     'This holds for enclosures with any number of point or interval coefficients, scalar or vector inputs, and hence for any sequence of operations; when nothing has to be truncated and all coefficients are points, the result is the exact polynomial. Mapping a function over an enclosure applies it to every array and keeps the structure.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of operations up to a depth, all enclosures (shapes, interval/point patterns), trust regions and maximum degrees',
     'Each test performs one operation on one pair of enclosures; interval coefficients below the last, truncation with excess degree, and multi-dimensional inputs are hardly exercised and never evaluated pointwise.',
     [A+'enclosure_arithmetic.py', A+'polynomials.py', A+'interval_arithmetic.py'],
     [('TaylorEnclosureArithmetic.add/multiply/power/divide/subtract/negative/arbitrary_bilinear', A+'enclosure_arithmetic.py'),
      ('truncation by enclosing high-degree terms over the trust region', A+'enclosure_arithmetic.py:enclose_enclosure')],
     ['TaylorEnclosureArithmetic methods with numpy and jax.numpy'])

prop('C07', 'Composition and degree reduction of enclosures stay sound',
     'Composing an elementwise enclosure with an argument enclosure, applying an elementwise function to an enclosure (with a trust region that is given or derived), and lowering the degree of an enclosure each return an enclosure containing every value the exact composition (or the original enclosure) takes on the trust region. '
     'This holds for every combination of degrees - also when the elementwise enclosure has more terms than the maximum degree - and for scalar, vector and matrix values of scalar and vector inputs.',
     ['inputs', 'configurations'],
     'all elementwise and argument enclosures over a coefficient lattice, all degree combinations, trust regions and shapes',
     'Five composition examples and five degree-reduction examples are compared by value; none has more elementwise terms than the maximum degree, and containment is never evaluated.',
     [A+'enclosure_arithmetic.py', A+'polynomials.py'],
     [('compose_enclosures', A+'enclosure_arithmetic.py'), ('get_elementwise_fun', A+'enclosure_arithmetic.py'), ('enclose_enclosure', A+'enclosure_arithmetic.py')],
     ['TaylorEnclosureArithmetic.compose_enclosures', 'TaylorEnclosureArithmetic.get_elementwise_fun', 'enclose_enclosure'])

prop('C08', 'Primitive enclosures contain the function over the trust region',
     'For each built-in elementwise function (abs, exp, log, sigmoid, softplus, swish, x**p for any real p) and every supported degree, the elementwise enclosure returned for a reference point (where the function has the derivatives used) and a trust region containing it contains the function at every point of the trust region in its domain, and its coefficients below the last are the Taylor coefficients. '
     'This includes trust regions that touch or cross zero or a critical point, degenerate and one-sided regions, negative or non-integer exponents, and large arguments.',
     ['inputs', 'configurations'],
     'all reference points, trust regions, degrees, exponents; scalars and arrays',
     'The tests sample 101 points of one region per function and degree, mostly centred regions of radius one; regions ending at critical points, one-sided ones and most exponents are not tried.',
     [A+'primitive_enclosures.py', A+'elementwise_functions.py'],
     [('get_elementwise_taylor_enclosure', A+'primitive_enclosures.py'), ('pow_enclosure', A+'primitive_enclosures.py'),
      ('sharp_enclosure_monotonic_derivative', A+'primitive_enclosures.py'), ('sharp_quadratic_enclosure_even_symmetric_hessian', A+'primitive_enclosures.py')],
     ['primitive_enclosures.*_enclosure'])

prop('C09', 'Primitive enclosures are sharp whenever sharpness is promised',
     'For every trust region inside the domain of the function and of its derivatives: where the derivative of the enclosure degree is monotone over the trust region, or the function is softplus at degree two, the final coefficient of the elementwise enclosure is the tightest interval valid on the region: each of its end points is attained by the normalised Taylor remainder there. '
     'In the remaining cases it is never wider than the exact range of that derivative divided by the factorial of the degree.',
     ['inputs', 'configurations'],
     'all reference points and trust regions, all functions, degrees and exponents',
     'Tightness is asserted at hand-picked end points of one region per function.',
     [A+'primitive_enclosures.py', A+'elementwise_functions.py'],
     [('sharp_enclosure_monotonic_derivative', A+'primitive_enclosures.py'), ('per-element choice between sharp and fallback enclosures', A+'primitive_enclosures.py:get_elementwise_taylor_enclosure'),
      ('monotone_over', A+'elementwise_functions.py')],
     ['final coefficient of primitive_enclosures.*_enclosure'])

prop('C10', 'Function library: derivatives, ranges and monotonicity are correct',
     'For every function identifier of the library, the callable is the stated derivative of the named function at every argument; the reported range over an interval is the exact minimum and maximum there; and the monotonicity reported over an interval is true - and is reported whenever the interval contains no interior extremum of the function. '
     'Taylor polynomial coefficients are the derivatives at the point divided by factorials, for any order the library supports.',
     ['inputs', 'configurations'],
     'all function identifiers and derivative orders, all intervals (including ones ending at an extremum), scalars and arrays, both back ends',
     'Derivatives are compared at seven points, ranges on about thirty intervals (mostly of the sigmoid), and monotonicity on hand-made data with at most two extrema.',
     [A+'elementwise_functions.py'],
     [('get_function', A+'elementwise_functions.py'), ('table of local minima and maxima', A+'elementwise_functions.py:_FUNCTION_DATA'),
      ('get_range', A+'elementwise_functions.py'), ('monotone_over', A+'elementwise_functions.py')],
     ['get_function', 'get_range', 'FunctionData.monotone_over', 'get_taylor_polynomial_coefficients'])

prop('C11', 'Polynomial algebra is exact over any coefficient algebra',
     'Multiplying two polynomials, raising one to a non-negative integer power, and evaluating a polynomial give exactly the mathematical polynomial for every number of terms and every commutative coefficient algebra supplied by the caller, passing the right degrees to the caller\'s callbacks. '
     'With interval coefficients the results contain every member polynomial, powers are at least as tight as the term-by-term expansion of the product, and evaluation at a point or over an interval contains every member value.',
     ['inputs', 'configurations'],
     'all coefficient sequences, lengths and exponents, over integers, intervals, vectors and a free commutative algebra',
     'polynomials_test checks about twenty concrete products and powers with small integers.',
     [A+'polynomials.py'],
     [('arbitrary_bilinear', A+'polynomials.py'), ('integer_power via integer partitions and multinomial coefficients', A+'polynomials.py'),
      ('eval_polynomial, eval_taylor_enclosure, eval_elementwise_taylor_enclosure', A+'polynomials.py')],
     ['polynomials.arbitrary_bilinear', 'polynomials.integer_power', 'polynomials.eval_*'])

prop('C12', 'Graph pattern matching and replacement preserve meaning',
     'Matching a pattern against an operation sequence succeeds exactly when some binding-respecting substitution of variables turns the pattern into it, and returns that substitution. '
     'Replacing occurrences of a pattern by an equivalent replacement yields a graph with the same inputs and outputs in which every variable is defined before use and every output has the same value, whatever the subject graph; no occurrence that can safely be replaced, scanning from the left, is left behind, and every operation outside the replaced occurrences is kept unchanged and in order.',
     ['programs', 'inputs'],
     'all patterns and subject graphs up to a size, over a small alphabet of operations and variables, with and without constants',
     'graph_editor_test has ten fixed graphs with patterns of one or two operations; none has a repeated variable across inputs and outputs, an overlap, or an inner result used elsewhere.',
     [A+'graph_editor.py'],
     [('match', A+'graph_editor.py'), ('replace', A+'graph_editor.py')],
     ['graph_editor.match', 'graph_editor.replace'])

prop('C13', 'Jaxpr rewriting changes exactly the matched computations',
     'Replacing a pattern expression by a replacement in a JAX expression yields a well-formed expression that computes the same function as the original with every contiguous occurrence of the pattern computation replaced, for any input values and shapes. '
     'Equations that differ from the pattern in primitive, constants, parameters or nested expressions are left alone, and the result does not depend on how many variables or expressions were created before.',
     ['programs', 'inputs', 'histories'],
     'all pattern/replacement/subject triples from a small grammar of expressions, all input values and shapes of a lattice, any prior history of expression creation',
     'Six fixed replacements are compared structurally; none has several occurrences with a multi-operation replacement, near-miss parameters, or an inner result used elsewhere.',
     [A+'jax/jaxpr_editor.py', A+'graph_editor.py'],
     [('replace', A+'jax/jaxpr_editor.py'), ('conversion between jaxprs and graphs', A+'jax/jaxpr_editor.py:_jaxpr_to_graph'),
      ('equation parameter equivalence', A+'jax/jaxpr_editor.py:_jaxpr_eqn_params_equiv')],
     ['jaxpr_editor.replace, evaluated with jax.core.eval_jaxpr'])

prop('C14', 'Results do not depend on history, and inputs are never modified',
     'The bounds computed for a function, reference point, trust region and configuration are the same whatever was computed before: earlier calls on the same or other functions, calls with other shapes, degrees, precisions or propagation modes, changes of the JAX precision setting and back, registrations of other primitives, and failed calls. '
     'No call modifies the arrays, intervals or enclosures passed to it, and results already returned never change later.',
     ['histories', 'configurations'],
     'all histories of calls, failed calls, registrations and precision switches up to a length, in any order',
     'Each test runs in one configuration with a fresh bound function and reads the result once.',
     [A+'jax/jax_bound.py', A+'enclosure_arithmetic.py', A+'polynomials.py', A+'interval_arithmetic.py'],
     [('rewrite rules generated per use, because they depend on the precision setting', A+'jax/jax_bound.py:_JAXPR_REWRITE_RULES'),
      ('arithmetic objects created per call', A+'jax/jax_bound.py:taylor_bounds')],
     ['coefficients after each step of a history compared with those of a fresh process'],
     [('_ELEMENTWISE_PRIMITIVE_ENCLOSURES', 'process-wide registry of primitives', A+'jax/jax_bound.py'),
      ('_JAXPR_REWRITE_RULES', 'process-wide list of rewrite rules', A+'jax/jax_bound.py')])

prop('C15', 'NumPy and JAX back ends, batching and shapes all agree',
     'Interval arithmetic, polynomial evaluation, enclosure arithmetic, primitive enclosures and the function library give the same values, shapes and interval/point structure with the NumPy back end as with the JAX back end, up to roundoff. '
     'Applying an elementwise operation to an array of operands gives elementwise what applying it to each element gives (with a vector as independent variable, integer powers of interval coefficients may be wider for arrays), and operands given as Python numbers behave like zero-dimensional arrays.',
     ['inputs', 'configurations'],
     'all operations, all operands of a lattice, scalar and array operands, both back ends and both JAX precisions',
     'Tests loop over back ends on a few examples, and mostly with scalars.',
     [A+'interval_arithmetic.py', A+'enclosure_arithmetic.py', A+'polynomials.py', A+'primitive_enclosures.py', A+'elementwise_functions.py', A+'types.py'],
     [('all code is written against the NumpyLike protocol', A+'types.py')],
     ['every public operation of the library'])

prop('C16', 'Propagating trust regions only tightens bounds; degree-0 is the range',
     'For any function, reference point, trust region and degree, the bounds computed with trust-region propagation are contained in those computed without it, and both contain the function. '
     'Propagation succeeds for every function for which bounds without propagation succeed, and for maximum degree zero both modes return the same interval (for a chain of smooth operations that avoids zero, the exact range).',
     ['programs', 'inputs', 'configurations'],
     'all compositions of supported operations, all reference points, regions and degrees',
     'Six tests use propagation, one of which involves a non-trivial composition.',
     [A+'jax/jax_bound.py'],
     [('intersection of two degree-0 enclosures, widened to contain the reference value', A+'jax/jax_bound.py:taylor_bounds')],
     ['taylor_bounds(f, d, True) against taylor_bounds(f, d, False)'])

prop('C17', 'Registered elementwise primitives are bounded with what was registered',
     'After an enclosure function is registered for a primitive, every later bound of a program using that primitive - anywhere in the program, any number of times, on scalars or arrays, in any degree and propagation mode - uses exactly the enclosure function registered last for it (also if the primitive had a rule before), calling it with the reference value, a valid trust region of its argument and the requested degree. '
     'Registration does not change the bounds of programs that do not use the primitive. (Softplus and swish are recognised and bounded as a whole.)',
     ['histories', 'programs', 'configurations'],
     'all histories of registrations and bound computations up to a length; programs with up to three uses of registered primitives',
     'One test registers one primitive once and uses it once.',
     [A+'jax/jax_bound.py'],
     [('register_elementwise_primitive', A+'jax/jax_bound.py'), ('pushforward table built per call from the registry', A+'jax/jax_bound.py:_pushforward_funs')],
     ['calls received by the registered enclosure function', 'bounds of programs using it'],
     [('_ELEMENTWISE_PRIMITIVE_ENCLOSURES', 'registry', A+'jax/jax_bound.py')])

prop('C18', 'Bound computations can be traced: jit and vmap agree with eager',
     'Computing bounds inside jax.jit, or mapping over reference points and trust regions with jax.vmap, gives the same coefficients as computing each of them eagerly, for every function whose bounds can be computed eagerly with non-concrete constants, every degree and propagation mode. '
     'In particular an optimisation step that picks its step size from such bounds behaves the same compiled and uncompiled.',
     ['programs', 'inputs', 'configurations'],
     'all single supported operations and small compositions, all degrees and modes, batches of reference points and regions',
     'No test traces a bound computation, although the documented applications do.',
     [A+'jax/jax_bound.py', A+'primitive_enclosures.py', A+'elementwise_functions.py', A+'interval_arithmetic.py'],
     [('element choices made with where() instead of Python branches', A+'primitive_enclosures.py'), ('range computation', A+'elementwise_functions.py:maximum_value')],
     ['jax.jit / jax.vmap of taylor_bounds'])

prop('C19', 'Concurrent and re-entrant bound computations do not interfere',
     'When several threads compute bounds at the same time, a primitive is registered meanwhile, or an enclosure function computes bounds while it is being called from a bound computation, each computation returns what it returns alone, under every interleaving. '
     'The same holds for interval and enclosure arithmetic objects shared between threads.',
     ['schedules'],
     'all interleavings of two computations up to a bounded number of preemptions, and re-entry at every call of a registered enclosure function',
     'All tests are single-threaded and none is re-entrant.',
     [A+'jax/jax_bound.py', A+'enclosure_arithmetic.py', A+'interval_arithmetic.py', A+'polynomials.py'],
     [('no module-level or object-level scratch state is written during a computation', A+'jax/jax_bound.py:taylor_bounds')],
     ['coefficients computed under each schedule'])

prop('C20', 'Bound objects evaluate consistently, and safe steps are safe',
     'For every returned bound object, evaluating it at x gives the value of its coefficient polynomial at x minus the reference point: lower and upper are the end points of that evaluation, they coincide when no coefficient is an interval, lower <= upper at every x of the trust region, and final_interval is the last coefficient as an interval. '
     'Hence minimising the quadratic upper bound over a range of step sizes never increases the loss, and integrating the lower and upper polynomials brackets the integral.',
     ['inputs', 'histories', 'configurations'],
     'all coefficient structures, evaluation points on both sides of the reference point, and all runs of the step-size selection loop up to a length from a lattice of starting points',
     'No unit test evaluates TaylorBounds at all; the applications appear only in notebooks that are not run.',
     [A+'jax/jax_bound.py', A+'polynomials.py'],
     [('TaylorBounds.__call__/lower/upper/final_interval', A+'jax/jax_bound.py'), ('eval_taylor_enclosure', A+'polynomials.py')],
     ['TaylorBounds methods'])

prop('C21', 'General enclosure builders are sound and sharp for user functions',
     'The builders that a user calls to enclose a function of their own return enclosures that meet their stated contracts for every function, reference point and trust region that satisfies the stated condition. '
     'sharp_enclosure_monotonic_derivative (k-th derivative monotone over the region), sharp_quadratic_enclosure_even_symmetric_hessian (second derivative even, and decreasing away from zero) and bounded_derivative_enclosure (k-th derivative within the given range) all keep the given Taylor coefficients below the last and contain the function throughout the region; for the first two the last coefficient is the exact range over the region of (f(x) - Taylor polynomial of degree k-1) / (x-x0)^k, for the third it is the given range divided by k!. '
     'taylor_remainder_ratio is that quotient, and the k-th coefficient at x0 itself. Given all local extrema (in any order), maximum_value/minimum_value, bounds of the function over the region are exact. '
     'A number of coefficients that does not fit the degree, or a negative degree, is refused.',
     ['inputs', 'configurations', 'functions'],
     'all functions with the stated monotonicity or symmetry, all degrees, reference points and regions that satisfy it, both back ends, scalars and arrays',
     'The unit tests call each builder with one or two of the built-in functions; none supplies a function of its own with an arbitrary k-th derivative.',
     [A+'primitive_enclosures.py', A+'elementwise_functions.py'],
     [('sharp_enclosure_monotonic_derivative', A+'primitive_enclosures.py'), ('sharp_quadratic_enclosure_even_symmetric_hessian', A+'primitive_enclosures.py'),
      ('bounded_derivative_enclosure', A+'primitive_enclosures.py'), ('taylor_remainder_ratio', A+'primitive_enclosures.py'), ('maximum_value/minimum_value', A+'elementwise_functions.py')],
     ['returned enclosures'])

prop('C22', 'Bounds tighten, and converge, as the trust region shrinks',
     'For every supported program, reference point, maximum degree and propagation mode: if one trust region contains another (with the same reference point), the bounds computed for the smaller one are at least as tight. The coefficients below the maximum degree are the same, and the last coefficient for the smaller region lies within that for the larger one (up to roundoff). '
     'As the region shrinks towards the reference point, the width of the last coefficient shrinks in proportion wherever the function is smooth there, so that the bounds converge to the Taylor polynomial; for a region that is a single point the last coefficient is a single number (programs of array-valued operations of a scalar).',
     ['programs', 'inputs', 'configurations'],
     'all programs of the grammar, all pairs of nested trust regions of a lattice of one- and two-sided shrinkings, all degrees, both modes',
     'Every unit test looks at one trust region per program; none compares the bounds for two of them.',
     [A+'jax/jax_bound.py', A+'primitive_enclosures.py', A+'enclosure_arithmetic.py', A+'interval_arithmetic.py', A+'polynomials.py', A+'elementwise_functions.py'],
     [('taylor_bounds', A+'jax/jax_bound.py'), ('ranges of derivatives and remainder ratios', A+'primitive_enclosures.py'), ('enclose_enclosure', A+'enclosure_arithmetic.py')],
     ['coefficients for nested trust regions'])

prop('C23', 'Bounds transform as the function does: symmetries are respected',
     'Bounds do not depend on how the axes are drawn. Replacing x by s*x + t multiplies coefficient k by s^k (and moves the reference point and region accordingly, reflecting them if s < 0). Permuting or rescaling the components of a vector x permutes or rescales the corresponding axes of the coefficients; reordering or reshaping the elements of an elementwise computation does the same to theirs. '
     'The bounds of -f, c*f and f + c are those of f negated, scaled and shifted; the bounds of a sum or elementwise product do not depend on the order of the operands, those of b - a are the negated bounds of a - b, and negating one factor negates the bounds of a product. The enclosures of the built-in functions satisfy their identities: abs, cbrt, log and powers at scaled arguments, abs, cbrt, integer powers, sigmoid, softplus and swish at mirrored ones. All this up to roundoff, at every degree and in both propagation modes.',
     ['programs', 'inputs', 'configurations'],
     'all programs of the grammar, all of a set of affine substitutions, permutations, scalings and exchanges, all degrees, both modes',
     'Unit tests compare single programs with hard-coded coefficients; none relates the bounds of two programs.',
     [A+'jax/jax_bound.py', A+'enclosure_arithmetic.py', A+'interval_arithmetic.py', A+'polynomials.py', A+'primitive_enclosures.py'],
     [('taylor_bounds', A+'jax/jax_bound.py'), ('arbitrary_bilinear', A+'interval_arithmetic.py'), ('compose_enclosures', A+'enclosure_arithmetic.py'), ('eval_taylor_enclosure', A+'polynomials.py')],
     ['coefficients of related programs'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
