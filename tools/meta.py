#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/MathUtils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f if "/" in f else S + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech]),
                  _t=technique, _n=note))


prop("C01", "Angles are normalised into the stated interval, keeping the direction",
     "Normalising an angle to [0, 360[, ]-180, 180], [0, 2pi[ or ]-pi, pi] returns, for every finite angle of either sign and any number of turns, a value inside that half-open interval that differs from the angle by a whole number of turns (up to rounding), for integers exactly. "
     "The remainder functions return a value congruent to the angle and smaller than one turn in magnitude; cosine and sine obtained together equal those of the angle, in degrees and in radians. "
     "The unit names DEG and RAD are recognised and any other name ends the process with a message.",
     ["inputs"], "every finite angle, of type double, float or int, in degrees and radians; every unit name",
     "The tests normalise a handful of angles; the failures are at exact multiples of the half turn, at tiny negative angles and after many turns.",
     ["Angles.h"], [("Normalize_*", S + "Angles.h"), ("modulo360/modulo2pi", S + "Angles.h"), ("_GetTrigo", S + "Angles.h"), ("STRING2ANGLE", S + "Angles.h")],
     "property-based testing against an exact congruence oracle", "Generated angles on every scale; oracle in long double / exact integer arithmetic; tolerance a few ulps of the angle.")
prop("C02", "Unit conversions apply the physical factor, compose and round-trip",
     "Converting a speed (m/s, km/h, knot), a frequency or rotation speed (Hz, rad/s, deg/s, deg/min, rpm, period in s) or an angle between any two units applies the exact physical relation to within rounding, through the general converters and through the one-to-one functions alike. "
     "Converting A to B to C equals converting A to C, and converting back returns the value. "
     "The vector forms convert every element; the in-place forms modify their argument, the copying forms leave their input unchanged.",
     ["inputs"], "every value and every ordered pair or triple of units, scalars and vectors of any length",
     "The tests convert one value per direction for some pairs; 6x6 and 3x3 pairs, vectors and compositions are not all covered.",
     ["Unit.h"], [("convert_velocity_unit", S + "Unit.h"), ("convert_frequency", S + "Unit.h"), ("one-to-one converters", S + "Unit.h")],
     "property-based testing, reference factors and metamorphic composition", "All ordered pairs are drawn many times; values over 24 decades.")
prop("C03", "1D interpolation passes through the data and treats the outside as asked",
     "An interpolator of a table of strictly increasing abscissae returns the tabulated value at every node and the straight line between the two neighbouring nodes everywhere inside, for real and complex ordinates. "
     "Outside of the table the plain method refuses (message and end of the process), the extrapolating method continues the first or last segment and the saturating method returns the first or last value. "
     "Evaluating a vector equals evaluating its elements in order, and initialising an interpolator again makes it represent the new data only.",
     ["inputs", "histories"], "every strictly increasing table of 2 points or more, every abscissa inside, on the nodes and outside, every sequence of initialisations",
     "The tests use two tables and few points, mostly inside.",
     ["Interp1d.h", "Interp.h"], [("Interp1dLinearBase::Initialize", S + "Interp1d.h"), ("Interp1dLinear*::Eval", S + "Interp1d.h"), ("Interp1d::MakeInterp1d", S + "Interp1d.h")],
     "property-based testing against an independent piecewise-linear model", "Tables of 2 to 400 points; error bound scaled by the size of the ordinates and slopes.")
prop("C04", "A 1D lookup table keeps every series it was given, through any history",
     "After any sequence of setting abscissae, adding series, moving and querying, a 1D table evaluates each series it accepted as the interpolation, by its method, of the data under that name, scalar, vector and all-series evaluations agreeing. "
     "Adding a series under a name already in use is refused (returns false) and, like a series refused for lack of values, changes nothing; the number of series, the number of samples, the abscissae and their bounds are those given. "
     "Moving a table transfers all of it, and an unknown name or an abscissa outside of a non-extrapolating table is refused, never answered with another value.",
     ["histories", "inputs"], "every sequence of operations on a table of each method, real and complex series",
     "The tests build one table and evaluate it; no history with moves, duplicate names or several series.",
     ["LookupTable1D.h", "Interp1d.h"], [("LookupTable1D::AddY/SetX/Eval/GetIndex", S + "LookupTable1D.h")],
     "model-based stateful property testing", "Histories of up to 30 operations against a map of reference interpolants.")
prop("C05", "2D interpolation and tables are the bilinear interpolant of the grid data",
     "On a rectangular grid of strictly increasing coordinates the 2D interpolator returns the given value at every node and the bilinear interpolant of the four corners inside every cell and on every edge, continuous from cell to cell, for scalar, point and list evaluation alike. "
     "Initialising it again makes it represent the new data only; a 2D table does so for each accepted name, refuses a name already used and answers existence and count queries accordingly. "
     "Interpolation methods that do not exist in 2D and data with too few values are refused, without effect on the table.",
     ["inputs", "histories"], "every grid of at least 2x2 nodes, square or not, every point of it, every history of a table",
     "The tests evaluate one grid at a few points.",
     ["Interp2d.h", "LookupTable2D.h"], [("Interp2dLinear::Initialize/Eval", S + "Interp2d.h"), ("LookupTable2d", S + "LookupTable2D.h")],
     "model-based property testing against an independent bilinear model", "Grids up to 40 x 40; tolerance scaled by the corner values.")
prop("C06", "N-dimensional grid interpolation is multilinear and clamps outside the grid",
     "In any dimension, the grid interpolator returns the value given at each node, the multilinear interpolant of the enclosing cell inside of the grid, and outside of it the value at the nearest point of its boundary (each coordinate clamped), whatever the storage order of the data. "
     "Copies and assignments give independent interpolators with the same answers, adding data again replaces the previous data, and the coordinates, bounds, dimension and validity reported are those given. "
     "Incomplete grids, additional or non increasing coordinates, data of another size, out of range indices and points outside of the grid when bound checking is asked are refused without damaging the interpolator.",
     ["inputs", "histories"], "every dimension from 1, number of nodes and spacing, every query point, every history of adding, copying and rejected calls",
     "The tests interpolate one function in one to three dimensions at interior points.",
     ["RegularGridInterpolator.h", "thirdparty/linterp.h".replace("thirdparty", S + "thirdparty")], [("RegularGridInterpolator", S + "RegularGridInterpolator.h"), ("InterpMultilinear::interp", S + "thirdparty/linterp.h")],
     "model-based stateful property testing against a multilinear model", "Dimensions 1 to 5, double and float.")
prop("C07", "Nearest-node lookup returns the nearest grid node and the enclosing nodes",
     "In any dimension, looking up a point returns a grid node that no other node is closer to on any axis, with its indices, coordinates and the datum stored there; a point outside of the grid gives the nearest boundary node. "
     "The surrounding nodes of a point are the corners of the cell that holds it (or the boundary nodes nearest to it when outside), with their coordinates and data. "
     "Copies and assignments are independent and equal, data added again replace the previous ones, and incomplete grids, coordinates in excess and indices out of range are refused.",
     ["inputs", "histories"], "every dimension, grid, datum type and query point, every history of copies and replacements",
     "The tests query one two-dimensional grid.",
     ["RegularGridNearest.h"], [("RegularGridNearest::Nearest/GetSurroundingGridNodes", S + "RegularGridNearest.h")],
     "model-based property testing against exhaustive nearest-node search", "Dimensions 1 to 4; ties accept either node.")
prop("C08", "Matrix decompositions have the stated factors and multiply back",
     "QR (thin and full), LU with its permutation, Cholesky and singular value decompositions return factors of the documented shape and structure (orthonormal columns, upper or unit lower triangular, permutation, sorted non-negative singular values) whose product is the matrix, within rounding. "
     "Cholesky refuses with an exception matrices that are not square, not symmetric or not positive definite, and the rank-one update equals the factor of the updated matrix. "
     "This holds for dynamic, 3x3 and 6x6 matrices of any conditioning, rank deficient ones included where the decomposition exists, also when a factor is written over the matrix itself.",
     ["inputs"], "every real matrix of any size (3x3, 6x6 and dynamic), rectangular where accepted, rank deficient or badly scaled",
     "The tests decompose a few random matrices and print or compare one product.",
     ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("Get*Decomposition, Get/InPlaceCholeskyUpdate", S + "Matrix.h, Matrix33.h, Matrix66.h")],
     "property-based testing, structural validity and reconstruction", "Sizes to 14 (24 rows); backward error bounds with a constant times machine epsilon times norm.")
prop("C09", "Inverse, solvers, pseudo-inverse and eigenvalues satisfy their equations",
     "The inverse (in place or returned) multiplied by the matrix is the identity; the LU and QR solvers return the solution of the system for one or several right hand sides, leaving the matrix unchanged. "
     "The pseudo-inverse satisfies the Penrose conditions with singular values under its tolerance dropped; the least squares solver minimises the residual (with the smallest norm when not unique) and, with equality constraints, does so among the solutions satisfying them. "
     "The eigenvalues returned are those of the matrix with their multiplicity, complex pairs included, and asking them of a non square matrix is refused.",
     ["inputs"], "every regular (or, for pseudo-inverse and least squares, any) matrix of dynamic, 3x3 and 6x6 type and every right hand side",
     "The tests solve a few fixed systems.",
     ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("Inverse, GetPseudoInverse, LUSolver, QRSolver, LeastSquareSolver, LeastSquareSolverConstraint, Eigenvalues", S + "Matrix.h")],
     "property-based testing with matrices built from a known spectrum", "Condition numbers to 1e10 for the solvers, any matrix for the eigenvalues (power sums); bounds proportional to the condition.")
prop("C10", "Matrix predicates tell the truth and element operations touch what they say",
     "The symmetric, orthogonal, identity, square, positive semi definite and equality predicates are true for matrices having the feature up to rounding and false as soon as one element departs clearly from it, whichever element that is. "
     "Element access, rows, columns, diagonal, transposition, symmetrisation from either triangle, null and identity resets, assignment and copy read or change exactly the elements they name. "
     "This holds alike for dynamic, 3x3 and 6x6 matrices.",
     ["inputs", "histories"], "every matrix, perturbed element and sequence of element operations",
     "The tests check a few predicates on random matrices, none on matrices lacking the feature at one element.",
     ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("Is*, at, GetRow/GetColumn/GetDiag, Transpose, MakeSymmetricFrom*", S + "Matrix.h, Matrix33.h, Matrix66.h")],
     "model-based property testing, single-element perturbations", "Perturbations at rounding level or clearly above the threshold; the band between is left free.")
prop("C11", "Planar vectors change frame and reference point without distortion",
     "Projecting a planar vector from local to NED axes rotates it by the heading and projecting it back undoes it, in place, into another vector and at construction, in radians or degrees. "
     "Transporting a velocity to another point adds the rotation speed crossed with the lever arm, whatever the frequency unit, and transporting back restores it; components on a single axis and the NED velocity from local components in any speed unit agree with these rotations. "
     "The argument vectors of constant methods are left unchanged, and the output may be one of the arguments.",
     ["inputs", "histories"], "every vector, heading, point, rotation speed and unit, and chains of changes of frame",
     "The tests check a few angles on one vector.",
     ["Vector2d.h"], [("ProjectLocalOnNED/ProjectNEDOnLocal/Transport*", S + "Vector2d.h")],
     "property-based testing against rotations in long double", "Headings up to hundreds of turns.")
prop("C12", "Vectors of any dimension compute norms, products and order as defined",
     "Norms, sums, inner, outer and diagonal products, projected angles, normalisation and comparisons of the vector classes equal their mathematical definition on the components, whatever their signs and order. "
     "Element writes, resets, sorting (both orders), reversal and copies change exactly what they name, dimension by dimension. "
     "An equality test is true within its tolerance and false when any single component differs clearly.",
     ["inputs", "histories"], "every vector of dimension 2, 3, 6 and dynamic, and every history of operations",
     "The tests read a few components.",
     ["Vector2d.h", "Vector3d.h", "Vector6d.h", "VectorN.h"], [("vector classes", S + "Vector2d.h, Vector3d.h, Vector6d.h, VectorN.h")],
     "model-based property testing against plain arrays", "Components over many decades, zeros and repeated values included.")
prop("C13", "Quaternion, rotation matrix and Euler conversions describe one rotation",
     "Converting between unit quaternions, rotation matrices and roll-pitch-yaw Euler angles (ZYX) preserves the rotation for every orientation, so that every chain of conversions returns to the same rotation (quaternions up to sign). "
     "The Euler angles returned are within [-pi, pi] with the pitch within [-pi/2, pi/2], also at and near gimbal lock. "
     "Matrices returned are orthonormal with determinant one and quaternions have unit norm.",
     ["inputs"], "every rotation, gimbal lock and its neighbourhood included",
     "The tests convert a few rotations away from the singularity.",
     ["Geometry.h"], [("conversions", S + "Geometry.h")],
     "property-based testing, round trips and long double reference", "Near gimbal lock the rotation is compared, not the angles; tolerance grows to 3e-8 within 1e-8 of it as the formulas imply.")
prop("C14", "The FFT is the discrete Fourier transform and its inverse restores the signal",
     "The forward transform of a real signal of any length is its discrete Fourier transform, whole or first half according to the option, and the inverse restores the signal, scaled or not according to the option (from a half spectrum, for even lengths). "
     "A transformer can be used for any sequence of signals of various lengths and options without one call influencing the next. "
     "The frequencies returned match the spectrum bins for the sampling frequency in every unit.",
     ["inputs", "histories"], "every signal length and content, every option, every history of calls on one transformer",
     "The tests transform one or two signals.",
     ["FFT.h"], [("FFT::fft/ifft/GetFrequencyVector", S + "FFT.h")],
     "property-based testing against a direct DFT in long double", "Lengths 1 to 160, prime ones included.")
prop("C15", "Trapezoidal integration and convolution equal the composite sum",
     "Integrating samples with constant or irregular step, or a function with a number of points between two bounds, gives the composite trapezoidal sum of the values, with its sign when the bounds are reversed, exact for affine data. "
     "An integrator answers for its current bounds, method and data, whatever was computed before; a method that is not implemented is refused. "
     "The convolution of a kernel with a history of the signal is the trapezoidal integral of their product, in the direct and the reversed order of the history.",
     ["inputs", "histories"], "every sampled data set, bounds and number of points, every history of changes on one integrator, every kernel and buffer",
     "The tests integrate one function.",
     ["Integration1d.h", "Convolution.h"], [("Integrate1d, Trapz", S + "Integration1d.h"), ("NaiveConvolution", S + "Convolution.h")],
     "property-based testing against the sum recomputed in long double", "2 to 200 values.")
prop("C16", "Triangle quadrature is exact up to its order on every triangle",
     "For each order from 1 to 8 the quadrature over a triangle in space integrates exactly (to the digits of its tables) every polynomial of at most that degree, for scalar, complex, vector and matrix integrands. "
     "The result does not depend on the order of the vertices, equals the sum over the parts when the triangle is subdivided (for such polynomials), and is the area for the unit integrand. "
     "Orders that do not exist are refused.",
     ["inputs", "configurations"], "every triangle, order, integrand type and polynomial of degree up to the order",
     "The tests integrate a few functions on one triangle.",
     ["Integration2dTriangle.h", "QuadratureTables.h", "Integration2d.h", "Integrand.h"], [("Integration2dTriangle::Compute", S + "Integration2dTriangle.h"), ("tables", S + "QuadratureTables.h")],
     "property-based testing against the exact barycentric moments", "The quadrature tables carry about 15 digits.")
prop("C17", "Bessel, Hankel, Legendre and Chebyshev values and derivatives are right",
     "The cylindrical Bessel functions of both kinds, modified ones, the Hankel function, the Legendre and Chebyshev polynomials (shifted ones and recurrence included), the factorial and gamma functions return their mathematical value for every order and argument of their domain. "
     "Their derivative functions return the derivative of that same function, at zero and for negative orders and arguments where defined. "
     "Consequently recurrences, Wronskians and parity hold.",
     ["inputs"], "every order (integer or real where accepted) and argument of the domain",
     "The tests compare a few tabulated values.",
     ["BoostFunctions.h"], [("Cyl_*, Legendre_*, Chebyshev_*, Factorial, Gamma", S + "BoostFunctions.h")],
     "property-based testing against the standard library and identities", "Orders to 60, arguments to 600.")
prop("C18", "Exponential integral and Struve approximations keep their accuracy throughout",
     "The approximations of the exponential integrals Ei, E1 and exp(-x) Ei(x) agree with the functions to 14 digits (relatively, but near the zero of Ei) over their whole domain, on each side of and at each boundary between their pieces. "
     "The Struve functions of order 0 and 1 and their derivative agree with the series to 3e-8. "
     "Arguments outside of the domain end the process with a message and are never given a value.",
     ["inputs"], "every positive argument, boundaries of the pieces included",
     "The tests compare at a few arguments, with loose tolerance in some pieces.",
     ["BoostFunctions.h"], [("Ei_approximation, E1_approximation, expEi, Struve_*", S + "BoostFunctions.h")],
     "property-based testing against series, continued fractions and quadrature", "References evaluated in long double, independent of boost.")
prop("C19", "Horner evaluation equals the polynomial and its derivative",
     "Evaluating a polynomial given by its coefficients in increasing order gives the sum of the coefficients times powers of the point, within the error bound of that sum, and the derivative function gives the derivative, for real and complex points. "
     "It is exact for small integers. "
     "Constant polynomials have a null derivative.",
     ["inputs"], "every non-empty list of coefficients and every point",
     "The tests evaluate one polynomial.",
     ["Polynomial.h"], [("Horner, Horner_derivative", S + "Polynomial.h")],
     "property-based testing against the explicit sum", "1 to 60 coefficients.")
prop("C20", "Chebyshev series are the interpolant of the function and of its derivatives",
     "A Chebyshev series in one, two or three variables, on closed or half-open domains, computed at given orders, equals the interpolating polynomial (in the mapped variables) of the function at the Chebyshev nodes, hence the function itself when its degree does not exceed the orders. "
     "Its derivatives are the derivatives of that interpolant with respect to each variable; asking the coefficients again changes nothing. "
     "The power series converted from it, and its limit at infinity, take the same values and derivatives.",
     ["inputs", "configurations"], "every function, domain (closed, half-open, mixed), order and point in 1, 2 and 3 variables",
     "The tests approximate one smooth function per class with a loose tolerance.",
     ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h"], [("ChebyshevSeries*", S + "ChebyshevSeries1d.h, ChebyshevSeries2d.h, ChebyshevSeries3d.h")],
     "property-based testing against an exact interpolant model", "Orders to 30 in 1D, 9 in 2D, 4 in 3D.")
prop("C21", "Power series evaluate to the sum of monomials and its derivatives",
     "A power series in one, two or three variables on closed or half-open domains evaluates to the sum of its coefficients times powers of the mapped variables, and its derivatives are those of that sum with respect to each variable. "
     "Evaluations combining values and derivatives, or with a predefined third coordinate, agree with the separate ones. "
     "The orders, bounds and coefficients reported are those given.",
     ["inputs", "configurations"], "every coefficient array, domain and point in 1, 2 and 3 variables",
     "The tests evaluate one function per class.",
     ["PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h"], [("PowerSeries*", S + "PowerSeries1d.h, PowerSeries2d.h, PowerSeries3d.h")],
     "property-based testing against the explicit sum", "Orders to 12 in 1D, 8 in 2D, 5 in 3D.")
prop("C22", "Splines pass through their points and reproduce polynomials",
     "A spline of any degree built on strictly increasing abscissae takes the given ordinate at every point, reproduces polynomials up to its degree and is the interpolating polynomial when there are no more points than its degree plus one. "
     "It is continuous (with its slope from degree 2) between points, depends linearly on the ordinates and does not depend on the unit and origin of the abscissae. "
     "The evaluation at any point of the range is finite.",
     ["inputs"], "every set of points with strictly increasing abscissae, degrees 1, 2, 3 and 5",
     "The test interpolates one set of points.",
     ["Spline.h"], [("Spline", S + "Spline.h")],
     "property-based testing, interpolation and metamorphic relations", "2 to 40 points; tolerance scaled with the size of the ordinates and conditioning.")
prop("C23", "Generated vectors and step functions follow their definition at each sample",
     "The linear and logarithmic ranges have the requested number of values, from start to stop inclusive, evenly spaced (or in constant ratio); the stepped range holds start plus multiples of the step, stop excluded. "
     "The sampled cardinal sine, step, door, impulse and ramp functions have at each sample the value of their definition, with the requested height and slope. "
     "This holds for thresholds on, between and outside of the samples.",
     ["inputs"], "every bounds, counts, steps, bases, grids and thresholds",
     "No test covers these functions.",
     ["VectorGeneration.h", "Functions.h"], [("linspace, logspace, arange", S + "VectorGeneration.h"), ("Sinc, Heaviside, Door, Dirac, Ramp", S + "Functions.h")],
     "property-based testing against closed forms", "2 to 500 values.")
prop("C24", "Scalar helpers and element-wise vector operations follow their definition",
     "Element-wise addition, subtraction, product, quotient, scaling, power, negation and sum of vectors, and the real, imaginary, amplitude and phase parts of complex vectors, are those of each element and leave constant arguments unchanged, for every element type. "
     "Sign, signed square root and saturation return the mathematical value for every type, exactly for integers; parity tells odd from even for negatives too. "
     "The closeness test is true exactly when the difference is within the absolute plus relative tolerance, and for vectors when all elements are close.",
     ["inputs"], "every vector, scalar, tolerance and element type",
     "No test covers these functions on more than one value.",
     ["StdVector.h", "Complex.h", "Maths.h", "Check.h"], [("Add, Minus, Mult, ...", S + "StdVector.h"), ("Amplitude, Phase", S + "Complex.h"), ("sgn, Saturate, SgnSqrt", S + "Maths.h"), ("IsClose, is_odd, is_even", S + "Check.h")],
     "property-based testing, element by element recomputation", "0 to 60 elements.")
prop("C25", "The generated version header reflects the state of the git repository",
     "After each build, the version header generated from the repository reports the current commit, its author and date, the branch, the description by the last tag and whether there are uncommitted changes, for every history of commits, tags, branches and modifications. "
     "It is rewritten when that state changed since the last build and left untouched when it did not. "
     "The header can be included in any number of translation units.",
     ["histories"], "every history of commits by any author, tags, branches, detached heads, modifications and builds",
     "The test prints the version of the repository being built.",
     ["cmake/git_watcher.cmake", "version.h.in"], [("git_watcher", "cmake/git_watcher.cmake"), ("template", S + "version.h.in")],
     "model-based stateful testing in scratch git repositories", "Histories of a dozen operations; runs the repository's watcher script with cmake.")
prop("C26", "Each header can be used alone, in any order and in several translation units",
     "Each public header compiles when it is included first or alone, and what it offers can be used without including anything else. Any number of translation units may include any of the headers in any order, and link into one program. "
     "The values computed do not depend on which headers were included before, on the translation unit, on the compiler or on whether assertions are enabled (NDEBUG), for arguments that respect the assertions.",
     ["programs", "include orders"], "every set and order of headers in every number of translation units",
     "Each test is a program of one translation unit, most of which include the umbrella header first.",
     ["all headers"], [("umbrella headers", S + "MathUtils.h"), ("umbrella headers", S + "MathUtilsBoost.h"), ("include lists and inline functions", S + "*.h")],
     "generated programs compiled, linked and run, compared with a reference unit", "Programs of 1 to 5 units, g++ and clang++, C++17.")
prop("C27", "The n-dimensional linear interpolators give multilinear or simplicial values",
     "InterpMultilinear and InterpSimplex return, in any dimension and for single points or batches, the multilinear and the simplicial (sorted coordinates, N + 1 vertices) interpolant of the data, equal to the data at the nodes, exact on affine functions, "
     "and clamped to the border of the grid outside of it. With copied data (the default) they do not depend on the arrays they were built from. Data whose size does not match the grids are refused by an exception; "
     "discontinuous data have a left and a right value at each node in each dimension. The C functions linterp_simplex_1 to _3 give the values of the simplicial interpolator and modify no input; reference counts given are held as long as the interpolator lives.",
     ["inputs"], "every grid, every data, every point",
     "No test uses these classes directly; the regular grid interpolator uses one of them in one way.",
     ["thirdparty/linterp.h"], [("NDInterpolator, InterpSimplex, InterpMultilinear, linterp_simplex_N", S + "thirdparty/linterp.h")],
     "property-based testing against interpolants recomputed from their definitions", "1 to 4 dimensions, up to 12 nodes per dimension, double and float.")
prop("C28", "Evaluation is pure: answers do not depend on earlier or simultaneous queries",
     "Querying a constant object (interpolators, lookup tables, grids, splines, power and Chebyshev series, quadratures, matrices) or calling a free function has no effect on later answers of this or any other object, whatever the order of the queries, "
     "and constant objects can be queried by several threads at once without data race and with the same answers.",
     ["histories", "schedules"], "every history of queries to any objects, from any number of threads",
     "Tests query each object a few times from one thread.",
     ["all evaluators"], [("Eval", S + "Interp1d.h"), ("Eval", S + "LookupTable1D.h"), ("Interp", S + "RegularGridInterpolator.h"), ("Evaluate", S + "PowerSeries3d.h"), ("Compute", S + "Integration2dTriangle.h")],
     "stateful testing against new objects, and threads under the thread sanitizer", "Two objects of each kind, three threads, up to ten queries per list.")

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
json.dump(dict(version=1, setup_cmd="bash checks/setup.sh",
               checks=[dict(property=p["id"], quick_cmd=f"bash checks/run.sh {p['id']} quick", thorough_cmd=f"bash checks/run.sh {p['id']} thorough",
                            technique=p["_t"], level="exploration",
                            level_note=p["_n"] + " Search, not proof: assurance is for the generated cases; g++ with address and undefined-behaviour sanitizers is trusted.") for p in P],
               not_applicable=[]),
          open(V + "/MANIFEST.json", "w"), indent=1)
