prop("C11", "RMS estimator equals its two-stage recursion for every signal",
     "For every sample history the estimate is the windowed recursive root mean square of the samples since the last setup: never negative, never above the largest magnitude seen in the run (beyond rounding), equal to |c| for a signal of constant magnitude, independent of the sign of the samples and proportional to their scale. setParams and setup accept exactly forgetting factors in range and otherwise change nothing, and no access leaves the supplied window.",
     ["inputs", "histories", "configurations"], "all sample histories, window sizes and parameter settings",
     NOTEST + "it never runs the estimator against a reference.",
     ["src/include/rms.hpp", "src/rms.cpp"], [("exponential recursion followed by a moving average", "src/rms.cpp")],
     ["RMS", "RMSMC", "RMSTrace"],
     "The laws (bounded, homogeneous, exact on constant magnitude) are model checked on all short signals; random and adversarial signals are run through the real class and each estimate must be the specified recursion of the recorded samples.",
     observe=["rms::update"])
prop("C12", "Discrete LTI systems output exactly their difference equation",
     "For every transfer function (numerator and denominator of any lengths, leading denominator coefficient not zero), optional output saturation, initial state and excitation, each output equals the difference equation of the normalised transfer function over the whole input history, limited to the saturation range. Setup accepts exactly configurations with usable coefficient and state storage, setInitStates restarts the system from the given states, and no access leaves the caller's arrays.",
     ["inputs", "histories", "configurations"], "all coefficient lengths and values, all excitations, saturations, initial states",
     NOTEST + "it simulates a few fixed systems and prints the responses.",
     ["src/include/ltisys.hpp", "src/ltisys.cpp"], [("direct form II recursion", "src/ltisys.cpp"), ("coefficient normalisation", "src/ltisys.cpp")],
     ["LTI", "LTIMC", "LTITrace"],
     "Direct form recursion equals the defining difference equation on all short excitations (TLC); the generated histories and random systems up to order 8 run in the real class and every output must lie within the rounding bound the specification carries along.",
     observe=["discreteSystem::excite"])
prop("C13", "Continuous LTI systems integrate their transfer function by the chosen rule",
     "For every proper transfer function, step size, integration method, saturation, initial state and excitation, each output is what the controllable canonical realisation integrated with the selected quadrature rule yields, including the direct feedthrough of systems whose numerator has the degree of the denominator, limited to the saturation range; with no saturation configured outputs are unrestricted. Setup refuses invalid dimensions, storage or step sizes and changes nothing then.",
     ["inputs", "histories", "configurations"], "all orders, coefficients, excitations, methods, step sizes, initial states",
     NOTEST + "it simulates a few fixed systems and prints the responses.",
     ["src/include/ltisys.hpp", "src/ltisys.cpp"], [("canonical realisation and state integration", "src/ltisys.cpp")],
     ["LTI", "LTIMC", "LTITrace", "NumaRules"],
     "As C12, for the continuous system with each of its integration rules.",
     observe=["continuousSystem::excite"])
prop("C14", "Transport delay reproduces its input exactly d steps later",
     "For every delay d >= 1, initial value and input history, the output at step k is the input of step k-d (the initial value before that), bit for bit, and the number of steps computed for a delay time and sample period is the nearest integer of their quotient.",
     ["inputs", "histories", "configurations"], "all delays, initial values, input histories",
     NOTEST + "one delay is used with one signal.",
     ["src/include/ltisys.hpp", "src/ltisys.cpp", "src/tdl.cpp"], [("delay line", "src/ltisys.cpp")],
     ["Transport", "TransportMC", "TransportTrace"],
     "All histories up to the model bound and random ones with delays up to 100 are replayed; comparison is exact.",
     observe=["transportDelay::operator()"])
prop("C15", "PID output follows its law and never leaves the saturation limits",
     "For every gain setting, set-point weighting, derivative filter, dead zone, integration and derivation method and every set-point/process history, the automatic output is the sum of the weighted proportional, integral (with back-calculation anti-windup feedback kw(u-v)) and filtered derivative actions, limited to [min, max]; it is never outside those limits. Setting gains, time-constant parameters or the series form installs exactly the equivalent parallel gains.",
     ["inputs", "histories", "configurations"], "all accepted configurations and all histories of set points, process values and re-configurations",
     NOTEST + "it runs one closed loop and prints it.",
     ["src/include/pid.hpp", "src/pid.cpp", "src/numa.cpp"], [("control law", "src/pid.cpp"), ("anti-windup feedback", "src/pid.cpp"), ("output saturation", "src/pid.cpp")],
     ["PID", "PIDMC", "PIDTrace", "NumaRules"],
     "The law with running error bounds is explored on all short histories (limits, bounded wind-up, reset) and those histories, plus random closed-loop and adversarial ones, are executed in the real controller; every output must be the specified one within the bound.",
     state=[("u1", "anti-windup feedback", "pidController"), ("D", "filtered derivative", "pidController"), ("uSat", "last output", "pidController")], observe=["pidController::control", "pidController::getGains"])
prop("C16", "PID modes, guards, reset and model-reference term behave as configured",
     "Before a successful setup every setting is refused and control returns the set point. Afterwards, for every interleaving of settings, mode changes, manual inputs, direction changes, model-reference (un)binding, resets and new setups with control steps: settings out of range are refused without effect, manual mode outputs the tracked manual signal (saturated), backward direction makes all gains act negatively, the model-reference term adds set point times the adapted gain, and reset or setup forgets all history.",
     ["inputs", "histories", "configurations"], "all interleavings of configuration calls and control steps",
     NOTEST + "it uses one configuration and no mode change.",
     ["src/include/pid.hpp", "src/pid.cpp"], [("parameter guards", "src/pid.cpp"), ("bumpless transfer tracking", "src/pid.cpp"), ("modified MIT rule", "src/pid.cpp")],
     ["PID", "PIDMC", "PIDTrace", "NumaRules"],
     "Same specification as C15 with all configuration operations interleaved at random; refused operations must report so and leave gains and behaviour unchanged.",
     observe=["pidController::control", "pidController::getGains", "return values"])
prop("C17", "PID auto-tuning installs the identified gains exactly once, when due",
     "For every interleaving of binding, arming with n steps, disarming, parameter changes, unbinding and control steps, the controller gains change exactly at the n-th step with a meaningful process estimate after arming, to the tuning rule of the selected controller type applied to the recursively identified gain and time constant; completion is reported from then on and only then. While disarmed, unbound or armed indefinitely the gains are never touched, and out of range tuning parameters are refused without effect.",
     ["inputs", "histories", "configurations"], "all interleavings of tuner operations with control steps, all well excited process histories",
     NOTEST + "it enables tuning once and never looks at the gains.",
     ["src/include/pid.hpp", "src/pid.cpp"], [("recursive least squares", "src/pid.cpp"), ("countdown of the armed steps", "src/pid.cpp"), ("tuning rules", "src/pid.cpp")],
     ["AutoTune", "AutoTuneMC", "AutoTuneTrace"],
     "The life cycle is explored exhaustively to depth 6 and replayed; the identification recursion is evaluated exactly (and once more in single precision to scale the tolerance) on the recorded input/output and compared with the offered estimates and installed gains at 0.2 %.",
     observe=["pidController::getGains", "pidController::isAutoTuningComplete", "pidAutoTuning::getEstimates"])
prop("C18", "Fuzzy membership functions and their inverses equal their definitions",
     "For every shape, parameter set, height and crisp value, the degree of membership is the defining formula of the shape (triangle, trapezoid, bell, Gaussian, two-sided Gaussian, sigmoid and their difference/product, pi, S, Z, singleton, concave, spike, linear S/Z, rectangle, cosine) times the height, always within [0,1] and 1 on the core even when a flank is vertical; crisp inputs are first limited to their range. The Tsukamoto consequents return the point at which the corresponding monotonic shape has the degree of the rule's strength.",
     ["inputs", "configurations"], "all shapes, admissible parameters, heights and input values including the corners of the shape",
     NOTEST + "it runs one tipping example and prints the result.",
     ["src/include/fis.hpp", "src/fisCore.cpp"], [("shape functions", "src/fisCore.cpp"), ("fuzzify limits the inputs", "src/fis.cpp")],
     ["FIS", "FISMC", "FISTrace"],
     "Degrees are observed through the public interface (rule k is IF x IS set k, its strength is the degree; output sets through the stored aggregated region; inverses through one-rule Tsukamoto systems) and compared with the exact formula within the accuracy of the library's elementary functions.",
     observe=["rule strength array", "output::storeAggregatedRegion", "getOutput"])
prop("C19", "Fuzzy rule strengths are the meaning of the rule text, weighted",
     "For every rule set written in the rule language (any number of terms, AND/OR, IS NOT, several consequents), every choice of AND/OR operators and rule weights and all membership degrees, inference stores for each rule the left-to-right combination of the degrees of its terms times its weight, within [0,1], and succeeds exactly when the rule set is well formed and has the declared number of rules. Parameters, tags and storage that are not admissible are refused without effect or memory access outside the caller's arrays, and a new setup forgets the previous weights.",
     ["inputs", "histories", "configurations"], "all rule sets, operators, weights, degrees; all tags including out of range ones",
     NOTEST + "one rule set is evaluated and its strengths are never looked at.",
     ["src/include/fis.hpp", "src/fis.cpp"], [("token automaton", "src/fis.cpp"), ("operator selection", "src/fis.cpp"), ("tag guards", "src/fis.cpp")],
     ["FIS", "FISMC", "FISTrace"],
     "TLC proves for every rule set in the bound that the token automaton computes the declarative meaning and checks de Morgan duality; those rule sets and random ones with up to 6 terms and 6 rules run in the real engine (fis::instance and fis::system) with degrees injected exactly.",
     state=[("lastConnector", "operator to combine the next term with", "fis::instance"), ("rStrength", "strength so far", "fis::instance"), ("ruleCount", "current rule", "fis::instance")],
     observe=["rule strength array", "return values"])
prop("C20", "Fuzzy aggregation and defuzzification give the specified crisp output",
     "For every Mamdani system the aggregated region of each output is, at each of the evaluation points, the aggregation of the implied consequents of the fired rules, and the crisp value is its centroid, bisector, smallest, largest or (first run's) middle of maximum as selected; for Sugeno and Tsukamoto systems it is the weighted average or sum of the rule outputs. The crisp value always is a number within the range of the output, for any number of outputs and whether or not any rule fires, and unsupported methods are refused.",
     ["inputs", "histories", "configurations"], "all systems of the three types, all operators and methods, all inputs and histories of re-configuration",
     NOTEST + "it evaluates one Mamdani system with the default method.",
     ["src/include/fis.hpp", "src/fis.cpp", "src/fisCore.cpp"], [("aggregation per evaluation point", "src/fis.cpp"), ("defuzzification methods", "src/fisCore.cpp")],
     ["FIS", "FISMC", "FISTrace"],
     "Random systems with up to 3 outputs run in the real engine; the stored regions are compared point by point with the specified aggregation and every crisp value with the selected method applied to the recorded region.",
     observe=["getOutput", "operator[]", "output::storeAggregatedRegion"])
prop("C21", "Table interpolation hits every knot and follows its method between them",
     "For every table with increasing abscissas, every method and every query point, the result is the specified piecewise function: next/previous/nearest return the ordinate of that neighbour (at a knot next is the one after it and previous the knot itself; half way nearest is the later one; outside the table the end); linear, sine, cubic (backward slopes), full polynomial, Catmull and constrained spline pass through every table point, join continuously, extrapolate with the end pieces and, sine aside, reproduce straight lines; the constrained spline never leaves the range of the two neighbouring ordinates. Tables too small for the method give NaN, unusable tables or methods are refused without effect, and nothing outside the table is read.",
     ["inputs", "histories", "configurations"], "all tables, methods and query points inside and outside the table",
     NOTEST + "it prints a few interpolated values of one table.",
     ["src/include/interp1.hpp", "src/interp1.cpp"], [("interval search", "src/interp1.cpp"), ("end slopes", "src/interp1.cpp")],
     ["Interp", "InterpMC", "InterpTrace"],
     "The laws are checked by TLC on all 512 four-point tables of the model; those tables and random ones (2..12 points, any spacing) are queried in the real class with all methods and every value must be the specified one within a rounding bound.",
     observe=["interp1::get", "return values"])
prop("C22", "Array algorithms do what they say to the range and to nothing else",
     "For every array, element type, comparison, predicate and (inclusive) range first..last inside the array: sort leaves the elements of the range in the given order with nothing lost, reverse reverses the range and rotate moves the whole array by any signed distance (right for positive), fill, for_each and replace/replace_if rewrite exactly the elements they name, find/find_if (first match), binary_search (any match of a sorted range), any_of/all_of and count_if answer from exactly the elements of the range, swap exchanges, and elements outside the range are neither changed nor read.",
     ["inputs", "configurations"], "all arrays, sub-ranges, distances, orders, predicates",
     NOTEST + "it sorts and rotates a few fixed arrays and prints them.",
     ["src/include/algorithm.hpp"], [("stack based quick sort", "src/include/algorithm.hpp"), ("three reversal rotation", "src/include/algorithm.hpp")],
     ["Algo", "AlgoMC", "AlgoTrace"],
     "The quick sort is modelled as the stack machine it is and checked on all arrays in the bound (termination, stack depth, range, permutation); the other algorithms are value level. Arrays and calls of the model plus random ones run in the real templates on exactly sized heap blocks under AddressSanitizer and every result is compared.",
     observe=["array contents after the call", "return values", "AddressSanitizer"])
prop("C23", "Matrix operations are the algebraic ones for every shape",
     "For every shape and contents, matrix addition, subtraction, product, scalar operations (both sides, compound, increments and decrements), negation, transpose, element access by row/column and by linear index, the identity/constant/zero and element-list constructors, copies and assignment, and the infinity norm give the algebraic result element by element within rounding; the inverse of every invertible matrix, whatever pivots it needs, multiplied by the matrix is the identity within its condition number. An operation changes only its target, also when an operand is an element of the target or the target itself.",
     ["inputs", "histories", "configurations"], "all shapes in the bound, all contents, all sequences of operations",
     NOTEST + "it prints a few products and one inverse.",
     ["src/include/mat.hpp"], [("compound operators", "src/include/mat.hpp"), ("Gauss-Jordan inverse", "src/include/mat.hpp"), ("norms", "src/include/mat.hpp")],
     ["Mat", "MatMC", "MatTrace"],
     "A register machine over six matrices; TLC checks the algebraic laws (associativity, transpose of a product, inverse) on the model and emits the operation sequences, which run in the real templates together with random ones for nine shapes; products and sums within a rounding bound, everything else exactly.",
     observe=["element reads", "norm", "comparison"])
prop("C24", "Bit level floating point helpers are exact for every number",
     "For every single precision number (zeros, subnormals, infinities and NaN included): classify, isNan, isInf, isFinite, isNormal, sign and absf report what the number is; rounding (halves away from zero), floor, ceil and trunc return the right integer (zero results keep the sign), frac the rest; rexp splits a number exactly and ldexp scales it with one correct rounding, overflow to infinity and gradual underflow; nextAfter is the adjacent number; copysign, Max/Min (any number of arguments), inRangeCoerce, isEqual (finite arguments) and midpoint (correctly rounded, no overflow) are exact; rem has the sign of the dividend, mod that of the divisor, and both differ from x by an integer multiple of y.",
     ["inputs"], "all 2^32 numbers and pairs of them",
     NOTEST + "it prints a handful of values.",
     ["src/include/ffmath.hpp", "src/ffmath.cpp"], [("mask and shift rounding", "src/ffmath.cpp"), ("two step scaling of ldexp", "src/ffmath.cpp"), ("adjacent number by integer step", "src/ffmath.cpp")],
     ["F32", "F32MC", "F32Trace"],
     "The bit manipulations are checked by TLC against the value level meaning on every number and pair of small formats (6 and 9 bit); the same specification instantiated at binary32 judges the real functions on every exponent with the corner fractions, all binary point positions, and random bit patterns.",
     observe=["return values, bit by bit"])
prop("C25", "Fast elementary functions keep their accuracy over the whole domain",
     "For every argument (every exponent, zeros, subnormals, infinities, NaN) the fast sqrt, rSqrt, cbrt, rCbrt, recip, sin, cos, tan, asin, acos, atan, atan2, exp, exp2, exp10, expm1, log, log2, log10, log1p, sinh, cosh, tanh, asinh, acosh, atanh, hypot and pow stay within the stated accuracy of the true function (absolute or relative, per function: e.g. 2.5e-6 for sqrt, 2e-5 for exp, 1.1e-3 for sin/cos, 0.007 for atan) wherever it is stated, never leave the range of the function, are NaN outside the mathematical domain, infinite at poles and on overflow and take the limit at infinity; the named constants are the nearest representable numbers.",
     ["inputs"], "all 2^32 arguments of each function (accuracy of sin/cos stated for |x| up to 1e5, tan away from its poles), all pairs for the two argument ones",
     NOTEST + "it prints a handful of values.",
     ["src/include/ffmath.hpp", "src/ffmath.cpp"], [("initial guess by bit manipulation and refinement", "src/ffmath.cpp"), ("argument reduction", "src/ffmath.cpp")],
     ["FF", "FFMC", "FFTrace"],
     "The specification evaluates the true function to about 100 bits and states the tolerance; TLC checks on a lattice that the approximation methods, in exact arithmetic, meet those tolerances and that the oracle satisfies the functional identities, and emits the lattice; lattice, corners and random bit patterns are evaluated by the real functions and every result is judged.",
     observe=["return values"])
prop("C26", "Angle wrapping, lerp, range mapping and point tests are right for every input",
     "wrapToPi/2Pi/180/360 return the congruent angle in their interval (inside values untouched, multiples of the period at the documented end); lerp returns a at 0, b at 1, stays between a and b for 0..1, is monotonic in t and within rounding of a+t(b-a); normalize and map are the affine maps of the given ranges, also reversed ones; inPolygon says whether the point is inside by the even-odd rule for every simple polygon, vertex count and orientation, inCircle whether it is within the radius, rounding distance to the border aside.",
     ["inputs", "configurations"], "all finite angles with |x| up to 2^20 periods, all a,b,t, all ranges, polygons and points",
     NOTEST + "these helpers are not exercised.",
     ["src/include/ffmath.hpp", "src/ffmath.cpp"], [("mod based wrapping", "src/ffmath.cpp"), ("exact end points of lerp", "src/ffmath.cpp"), ("edge crossing parity", "src/ffmath.cpp")],
     ["Geo", "GeoMC", "GeoTrace"],
     "TLC checks the parity rule against the half-plane definition on all triangles of a grid and its independence of direction and starting vertex on all quadrilaterals, and emits those; they and random cases of all helpers run in the real functions and are judged by the exact specification.",
     observe=["return values"])
prop("C27", "Gamma, beta, error, exponential integral, zeta and elliptic functions are right",
     "For every argument tgamma, lgamma, factorial, beta, erf, erfc, expint, riemann_zeta and the complete and incomplete elliptic integrals of the three kinds approximate the mathematical function: 4e-6 relative for tgamma of positive arguments (6e-5 above 12) and one unit in the last place for factorial, about 2e-6 for lgamma, 1e-4 for beta of moderate arguments, 1e-6 absolute for erf and erfc, 1e-5 relative for expint and riemann_zeta (away from its pole), 3e-5 for the complete elliptic integrals of the first and second kind, 0.3 percent for the third, 2 percent for the incomplete ones and for tgamma of negative arguments (which inherit the error of the fast sine); they have the right sign on every interval between poles, are NaN outside the domain, infinite at poles and on overflow, and take the limit at infinity.",
     ["inputs"], "all single precision arguments and pairs/triples of them",
     NOTEST + "it prints a handful of values.",
     ["src/include/ffmath.hpp", "src/ffmath.cpp"], [("Lanczos and asymptotic gamma", "src/ffmath.cpp"), ("series, continued fraction and asymptotic expint", "src/ffmath.cpp"), ("Carlson duplication", "src/ffmath.cpp")],
     ["SF", "SFMC", "SFTrace"],
     "The specification evaluates the functions by convergent series and transformations different from the code's to about 60..100 bits and states the tolerance; TLC checks functional identities of the specification (recurrence, reflection, Legendre relation, duplication, ...) on a lattice and emits it; lattice, corners and random arguments are evaluated by the real functions and every result is judged.",
     observe=["return values"])
prop("C28", "Orthogonal polynomials and Bessel functions are right for every order",
     "For every degree and order hermite, laguerre, assoc_laguerre, legendre, assoc_legendre and sph_legendre return the polynomial value within the rounding of the three term recurrence, are NaN outside the domain and zero for an order above the degree; for every order (integer, half integer, fractional up to 60) and argument cyl_bessel_i, cyl_bessel_j, cyl_bessel_k, cyl_neumann, sph_bessel and sph_neumann return the Bessel function in every region of the argument (series, continued fraction, asymptotic) within a few 1e-5 (a few percent for fractional orders of the second kind below 2, 0.2 percent for the spherical ones, growing with the argument for the oscillating ones), are NaN for negative order or argument and take the limit at zero.",
     ["inputs"], "all degrees, orders and arguments for which the intermediate results are representable",
     NOTEST + "it prints a handful of values.",
     ["src/include/ffmath.hpp", "src/ffmath.cpp"], [("three term recurrences", "src/ffmath.cpp"), ("Temme series and continued fractions", "src/ffmath.cpp"), ("large argument asymptotics", "src/ffmath.cpp")],
     ["SFB", "SFBMC", "SFBTrace"],
     "The specification evaluates the polynomials exactly and the Bessel functions by power series or Hankel expansion; TLC checks orthogonality, generating function, recurrence and Wronskian laws of the specification on a lattice and emits it; lattice, corners and random degrees, orders and arguments run in the real functions and every result is judged.",
     observe=["return values"])
prop("C29", "Objects used side by side do not influence each other",
     "Any number of delay lines, bit fields, integrators, smoothers, RMS estimators, LTI systems, transport delays, PID controllers, auto-tuners, fuzzy systems and interpolators may be used at the same time, their calls interleaved in any order: every object answers and evolves exactly as specified for its own calls alone, whatever is done to the other objects, of the same or of another configuration, in between.",
     ["histories", "schedules", "configurations"], "all interleavings of the calls on any number of objects of each stateful class",
     NOTEST + "it uses one object at a time.",
     ["src/"], [("object state held in data members only, no hidden shared state", "src/include/"), ("helpers shared by classes (tdl, nState, window functions)", "src/")],
     ["Fleet", "FleetMC", "TDLTrace", "BitFieldTrace", "NumaTrace", "SmootherTrace", "RMSTrace", "LTITrace", "TransportTrace", "PIDTrace", "AutoTuneTrace", "FISTrace", "InterpTrace"],
     "TLC enumerates all schedules of three objects up to length 6, checks that each object is what its own operations make of it and that steps of different objects commute, and emits the schedules; histories of the other checks are executed in several real objects at once in those orders (coroutines, one per object), and the projection of the recorded trace on every object must be a behaviour of that class's specification.",
     observe=["all observations of C01, C02, C07-C21"])
