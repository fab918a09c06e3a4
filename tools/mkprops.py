#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state=None, mech=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in (mech or [])],
            observe_at=observe or [], hook_needed=None)))

POLY = "src/algebra/polynomial.rs"; CPLX = "src/algebra/complex.rs"
SM = "src/linalg/smatrix.rs"; SV = "src/linalg/svector.rs"
DM = "src/linalg/dmatrix.rs"; DV = "src/linalg/dvector.rs"
DE = "src/optimize/differential_evolution.rs"

prop("C01", "Polynomial arithmetic is exact in every operator form",
 "For all polynomials of any lengths (empty, equal, shorter or longer on either side) over any ring, including rings whose multiplication does not commute, addition, subtraction, negation and multiplication yield exactly the mathematical sum, difference, negative and product. Every operator form (by value, by reference, compound assignment by value and by reference, multiplication by reference) yields the same polynomial. Operands passed by reference are left unchanged.",
 ["inputs", "histories"], "all coefficient rings, all pairs of coefficient lists, all sequences of operations on polynomial variables",
 "The tests use one pair of equal-length integer lists of length 2-3 per operator; unequal lengths, empty operands, non-commuting coefficients and chains of in-place updates are never run.",
 [POLY, "src/algebra/ring.rs", "src/algebra/ops_with_ref.rs"],
 [("coefficients", "the coefficient list of a polynomial, lowest power first", POLY)],
 [("operator impls Add/Sub/Mul/Neg and the *Assign forms", POLY)], ["results of operators, observed by evaluation at an indeterminate"])

prop("C02", "Polynomial evaluation is the power sum and respects arithmetic",
 "Evaluating a polynomial with coefficients a0..an at x gives a0 + a1*x + ... + an*x^n (coefficient on the left, power of x on the right), for every ring and for every number of coefficients including none. Evaluation by value and by reference agree. Over a commutative ring the value of a sum, difference, negative or product of polynomials is the sum, difference, negative or product of the values; the zero polynomial evaluates to zero and the one polynomial to one.",
 ["inputs"], "all rings, all polynomials, all evaluation points",
 "The tests evaluate a handful of fixed integer polynomials at one point.",
 [POLY], mech=[("eval / eval_ref (Horner)", POLY)])

prop("C03", "Polynomial equality is mathematical equality and the ring axioms hold under it",
 "Two polynomials compare equal exactly when they are the same mathematical polynomial, whatever computation produced them and however many zero coefficients of highest order it left behind. Under this equality the polynomials over a ring satisfy all ring axioms: associativity, commutativity of addition, distributivity, neutral elements, and p - p equals zero.",
 ["inputs", "histories"], "all rings, all polynomials and all expressions over them",
 "The tests only compare results whose coefficient lists have the same length; no test subtracts equal leading terms and compares.",
 [POLY], mech=[("PartialEq of polynomials", POLY)])

prop("C04", "Complex arithmetic is the ring T[i] in every operator form",
 "For all component rings T, including ones whose multiplication does not commute, complex addition, subtraction, multiplication, negation, zero and one are those of T[i] with i*i = -1, with the order of every component product preserved. Every form (value, reference, compound assignment, multiplication by a real scalar from the right) yields the same element, operands taken by reference are unchanged, and x *= x is the square of x.",
 ["inputs", "histories"], "all component rings, all operands, all sequences of operations on complex variables",
 "The tests run each operator once on one or two fixed pairs (mostly (1,2) and (3,4), squares), over commuting scalars.",
 [CPLX], mech=[("operator impls", CPLX)])

prop("C05", "Complex division inverts multiplication, in every operator form",
 "Over every field T in which -1 is not a square, (a*b)/b = a and (a/b)*b = a for all complex a and all b other than zero; a complex number divided by a real scalar is divided component-wise. Division by value, by reference and by scalar value or reference all agree.",
 ["inputs"], "all fields, all dividends, all non-zero divisors",
 "The tests divide two fixed f32 numbers; nothing covers conjugate/sign placement for general operands or exact fields.",
 [CPLX], mech=[("Div impls", CPLX)])

prop("C06", "Conjugate, squared norm, modulus and argument of complex numbers fit together",
 "Conjugation negates exactly the imaginary part, is an involution, and is compatible with sum and product over commuting scalars; the squared norm is re*re + im*im and equals z times its conjugate; the modulus (by value and by reference) is the square root of the squared norm. The argument is the angle of (re, im) in the correct quadrant within [-pi, pi] (pi for negative real numbers whose zero imaginary part is positive), and modulus and argument together give back z.",
 ["inputs"], "all scalars, all complex numbers of moderate magnitude",
 "The tests take one or two values per function, all but one in the first quadrant.",
 [CPLX, "src/algebra/conj.rs", "src/functions/atan2.rs", "src/functions/abs.rs"])

prop("C07", "The complex square root is the principal square root",
 "For every complex z of moderate magnitude the square root s satisfies s*s = z, has a non-negative real part, and its imaginary part has the sign of the imaginary part of z (non-negative for real z). This holds in every quadrant, on both axes, at zero, and on both sides of every switch between evaluation formulas; where the root is exactly representable the result is exact.",
 ["inputs"], "all complex numbers over scalars with a square root, across all sign and magnitude relations of the components",
 "One test samples random points and checks only s*s against a tolerance and the sign of re; axes, zero, the branch boundary |re| = 2|im| and the sign of im are not checked.",
 [CPLX, "src/functions/sqrt.rs"])

prop("C08", "Complex elementary functions satisfy their defining identities",
 "For complex z = x + iy of moderate magnitude: exp z = e^x (cos y + i sin y); sin, cos, sinh and cosh are the corresponding combinations of the real functions of x and y; tan = sin/cos; and ln z = ln|z| + i arg z with the imaginary part in [-pi, pi] (pi for negative real z with positive zero imaginary part), so that exp(ln z) = z. The equalities hold up to rounding in every quadrant and for real and purely imaginary arguments.",
 ["inputs"], "all complex arguments of moderate magnitude",
 "Each function is tested at one point or on random points with loose or one-sided bounds (the ln branch test accepts any error in the imaginary part up to 8*pi).",
 [CPLX, "src/functions/exp.rs", "src/functions/sin.rs", "src/functions/cos.rs", "src/functions/sinh.rs", "src/functions/cosh.rs", "src/functions/tan.rs", "src/functions/log.rs", "src/functions/atan2.rs"])

prop("C09", "Statically sized matrices: sums, products and units are those of matrix algebra",
 "For all row and column counts and all scalar rings, including non-commuting ones, sum, difference, negative, component-wise conjugate and product of statically sized matrices are the mathematical ones, with left factors kept on the left; zero is all zeros and one has ones exactly on the main diagonal, also for rectangular shapes. Every form (value, reference, compound assignment, in-place right multiplication) gives the same matrix, and operands taken by reference are unchanged.",
 ["inputs", "configurations", "histories"], "all dimensions, all scalar rings, all entries, all sequences of operations",
 "Each operator has one doc-test with a single 2x3 or 3x2 integer example; dimensions 1 and above 3, non-square chains and non-commuting entries are never run.",
 [SM, "src/algebra/ring.rs"])

prop("C10", "Statically sized vectors: linear operations, dot product, matrix-vector product",
 "For all dimensions and scalar rings, vector sums, differences and right scalar multiples act on every component; the dot product is the sum of products of corresponding components (left operand on the left, no conjugation); the matrix-vector product is the vector of row-by-vector sums and equals multiplication by the one-column matrix. All value, reference and assignment forms agree, indexing and iteration visit the components in order, and conversion from an array keeps every component in place.",
 ["inputs", "configurations", "histories"], "all dimensions, all scalar rings, all components, all sequences of operations",
 "One two-component doc-test per operator.",
 [SV, SM])

prop("C11", "Evaluating a matrix expression gives its element-wise mathematical meaning",
 "For every expression built from stored matrices, arrays, generator functions and the unit/zero/one/constant constructors by sum, difference, element-wise product and quotient, map, zip, transpose and Hermitian transpose, evaluation yields the matrix of the mathematically defined shape and entries, for all shapes including single-row, single-column and empty ones. Entry access, size queries and evaluation of the expression are consistent with each other, evaluation is idempotent, and stored matrices used by reference are unchanged.",
 ["programs", "inputs", "configurations"], "all expression trees, all shapes, all entries",
 "The tests evaluate single-operator expressions on one 2x3 or 3x2 integer example each; nested expressions, 1xn, nx1 and empty shapes are not covered.",
 [DM], mech=[("MatrixExpr / MatrixExprWrapper", DM)])

prop("C12", "Evaluating a vector expression gives its element-wise mathematical meaning",
 "For every expression built from stored vectors, slices, generator functions and the zero/one/constant constructors by sum, difference, element-wise product and quotient, map, zip, conjugation, and by taking the diagonal of a matrix expression or making a diagonal matrix from a vector expression, evaluation yields the vector (or matrix) with the mathematically defined length and entries. This holds for all lengths including zero and for rectangular matrices; entry access, length and emptiness agree with evaluation, and stored vectors used by reference are unchanged.",
 ["programs", "inputs", "configurations"], "all expression trees, all lengths, all entries",
 "Single-operator examples of length 3-6 with integers; the subtraction test of stored vectors actually tests addition.",
 [DV, DM])

prop("C13", "The product of dynamically sized matrices is the matrix product",
 "For all conforming dynamically sized matrices with at least one inner index, the product has the rows of the left and the columns of the right factor and its entries are the row-by-column sums with left factors on the left, for every scalar type including non-commuting ones. It agrees with the statically sized product, the unit matrix is neutral on both sides, products associate, and the factors are unchanged.",
 ["inputs", "configurations"], "all conforming shapes, all scalars, all entries",
 "One 2x3 by 3x2 integer product.",
 [DM, SM])

prop("C14", "The product of two dynamic vectors is the conjugate-linear inner product",
 "For all equally long dynamic vectors u and v over any scalars, u*v is the sum of conj(u_i)*v_i in that factor order: linear in v, conjugate-linear in u, zero for empty vectors, and conjugate-symmetric over commuting scalars. The value and reference forms agree and leave referenced operands unchanged.",
 ["inputs"], "all lengths, all scalars including complex and non-commuting ones",
 "The only tests use real integers, for which conjugation and factor order are invisible.",
 [DV, "src/algebra/conj.rs"])

prop("C15", "Operands of mismatching shape are always rejected",
 "Every operation on dynamically sized matrices or vectors that needs matching shapes (sum, difference, zip, element-wise product and quotient, compound assignment, matrix product, inner product) panics whenever the shapes do not match, in debug and release builds alike, and never yields a result; a rejected compound assignment leaves its target unchanged. Operands of matching shape are never rejected.",
 ["inputs", "configurations"], "all pairs of shapes, including equal element counts in different arrangement, single rows/columns and empty shapes",
 "No test passes mismatching operands to anything.",
 [DM, DV], mech=[("shape assertions", DM + ", " + DV)])

prop("C16", "Element access and in-place updates touch exactly the addressed elements",
 "Reading element (r,c) of a dynamic matrix or element i of a dynamic or static vector after any history of writes and compound assignments returns the value most recently stored there, and each write or compound assignment changes exactly the elements it addresses. An index outside the shape in any coordinate is rejected for reading and writing, even when the flattened position would still lie inside the storage.",
 ["histories", "inputs", "configurations"], "all shapes, all index pairs, all sequences of writes, compound assignments, clones and reads",
 "The tests index a 2x2 matrix and short vectors at valid positions only.",
 [DM, DV, SV], [("element storage", "row-major element array of a dynamic matrix", DM)])

prop("C17", "Expressions are lazy and evaluate every element exactly once",
 "Building a matrix or vector expression, transposing, zipping, mapping or wrapping it computes no element. Evaluating it calls each user-supplied generator and mapping function exactly once per element of the result that needs it, with that element's own indices or value, and never outside the shape; accessing one entry computes only what that entry needs.",
 ["programs", "inputs"], "all expression trees containing user functions, all shapes",
 "No test counts evaluations; recomputation or evaluation of unneeded elements leaves all results unchanged.",
 [DM, DV], mech=[("generator-based expressions, wrapper forwarding of eval", DM + ", " + DV)])

prop("C18", "Ring structures nest: polynomials, complex numbers and matrices over each other",
 "Polynomials, complex numbers and square static matrices over any ring form rings again that can be used as coefficients, components or entries of each other; the nested structures compute the mathematically correct result for every ring operation and satisfy the ring axioms under their own equality. This holds for generic code that only uses the ring interface (zero, one, in-place addition and subtraction, by-reference multiplication, negation, equality).",
 ["programs", "inputs"], "all towers of ring constructors, all elements",
 "No test nests any structure except one conjugation of a matrix of complex integers.",
 [POLY, CPLX, SM, "src/algebra/ring.rs", "src/algebra/field.rs", "src/algebra/ops_with_ref.rs"])

prop("C19", "Differential evolution: every trial point is a valid recombination",
 "In every iteration t the optimiser compares one trial point with the current member t mod population size; each trial coordinate either equals that member's coordinate or is x_a + F*(x_b - x_c) for three members a, b, c of the current population that are the same for all coordinates and are pairwise distinct and distinct from the current member. At least one coordinate is recombined; with crossover probability 0 exactly one is, and with probability 1 all are.",
 ["histories", "configurations", "inputs"], "all random number streams, population sizes, dimensions, weights, crossover probabilities and comparison outcomes",
 "The one test only checks that a two-dimensional function is roughly minimised (and is excluded from the stable tests); wrong donors or crossover still converge on it.",
 [DE], [("population", "current members", DE)], [("mutation and crossover step", DE)], ["the comparison callback's arguments"])

prop("C20", "Differential evolution: selection is greedy and never loses the best point",
 "A member is replaced by its trial point exactly when the caller's comparison says the trial is better, and by nothing else, so all later comparisons see exactly that population. For every comparison that is a strict weak order, no point of the initial population and no trial point evaluated during the run is better than the returned point, for every population size (odd or even) and number of iterations including zero. The returned point is a member of the final population.",
 ["histories", "configurations", "inputs"], "all comparison outcomes, orders with ties, population sizes, iteration counts",
 "The only test minimises one smooth function with population size 20; losing the best member of an odd population, or ties, cannot be seen.",
 [DE], [("population", "current members", DE)], [("greedy replacement and final knockout", DE)])

prop("C21", "Differential evolution: initial bounds, evaluation budget and parameter checks",
 "Every initial member lies within the given bounds of each coordinate. The optimiser makes exactly the requested number of trial comparisons followed by comparisons among members to pick the result, calls the comparison with no other points, and terminates. Population sizes below 4, crossover probabilities outside [0,1] (or NaN) and weights outside [0,2] are rejected before anything is compared, and all parameters within these limits, end points included, are accepted.",
 ["configurations", "inputs"], "all bounds, population sizes, iteration counts, weights, crossover probabilities, random streams",
 "The test runs a single valid configuration and observes neither calls nor bounds.",
 [DE], mech=[("parameter assertions, initial sampling, iteration loop", DE)])

prop("C22", "Differential evolution: reproducible, and no donor or coordinate is excluded",
 "Two runs with equal parameters, an identically seeded random generator and the same comparison behave identically call for call and return the same point. In long runs no choice is excluded: for each current member every other member, every ordered pair and every ordered triple of distinct other members occurs as its donors; also for each current member every coordinate occurs as the only recombined one when the crossover probability is 0, and for probabilities strictly between 0 and 1 every non-empty set of coordinates occurs as the recombined set (whatever the donors), coordinates being recombined at the rate that the probability (plus the one forced coordinate) implies. The members of a large initial population are spread over the whole box that the bounds span, independently in each coordinate.",
 ["histories", "configurations"], "all seeds and configurations; long runs",
 "The existing test is unseeded and checks only the final point.",
 [DE], mech=[("random index and crossover draws", DE)])

prop("C23", "Real elementary functions have their mathematical values",
 "For f32 and f64 of moderate magnitude the absolute value, square root, exponential, logarithm, sine, cosine, tangent, arcsine, hyperbolic sine and cosine and the two-argument arctangent return the mathematically correct value up to rounding, for positive and negative arguments. The two-argument arctangent picks the correct quadrant from the signs of both arguments (first argument y, second x; for a zero y and a negative x the result is pi or -pi as the zero is positive or negative), square roots and logarithms of negative numbers are NaN, and infinite arguments give the limiting values.",
 ["inputs"], "all f32/f64 arguments of moderate magnitude, special values",
 "Many of the tests bound the error from one side only, so any too-small result passes; several functions are tested at one or two points.",
 ["src/functions/abs.rs", "src/functions/sqrt.rs", "src/functions/exp.rs", "src/functions/log.rs", "src/functions/sin.rs", "src/functions/cos.rs", "src/functions/tan.rs", "src/functions/asin.rs", "src/functions/sinh.rs", "src/functions/cosh.rs", "src/functions/atan2.rs"])

prop("C24", "The Ackley test function has its documented shape",
 "The two-dimensional Ackley function is zero at the origin (up to rounding) and positive elsewhere, symmetric under exchanging and negating its arguments, and equals 20(1 - exp(-0.2*sqrt((x^2+y^2)/2))) + e - exp((cos 2 pi x + cos 2 pi y)/2). In particular on points whose coordinates are multiples of 1/4 it increases with the distance from the origin when the cosine part is equal, and decreases with the cosine part when the distance is equal.",
 ["inputs"], "all points of the documented domain [-5,5]^2",
 "The function is only used as an optimisation target; any function with a minimum near the origin passes.",
 ["src/optimize/test_functions.rs"])

prop("C25", "Scalar building blocks: zero, one, conjugation and by-reference operators",
 "For every primitive number type that supports them, zero and one are the neutral elements of addition and multiplication, conjugation of a real number returns it unchanged, and by-reference multiplication and division equal the ordinary operators with the left operand first. User-defined ring and field types obtain zero, one and by-reference operators with the same meaning from their conversions and operators.",
 ["inputs", "configurations"], "all primitive types, all values, user-defined types",
 "One value of one type is tested per trait.",
 ["src/algebra/ring.rs", "src/algebra/conj.rs", "src/algebra/ops_with_ref.rs", "src/algebra/field.rs"])

prop("C26", "Matrices, vectors and complex numbers are values: equality and copies",
 "Two dynamic or static matrices or vectors, or two complex numbers, compare equal exactly when they have the same shape (empty ones included: 0 x n differs from 0 x m and from m x 0) and all entries are pairwise equal under the entry type's own equality (so a NaN entry makes a container differ even from itself, and the two zeros are equal); != is the negation. A copy, however it was made (clone, assignment over an older value of another shape with clone_from, bitwise copy, evaluation of a reference), has the shape and the entries of the original, and a later write to either leaves the other unchanged. Copies of polynomials behave likewise.",
 ["inputs", "histories"], "all entry types, all shapes, all pairs of values, all histories of copies and writes",
 "The tests use equality as their oracle on a few small results and never compare values expected to differ; copies are never written to.",
 [DM, DV, SM, SV, CPLX, POLY],
 [("shape and entries of every variable", "row and column number, entries in row order", DM)],
 [("PartialEq and Clone of the containers", DM)], ["results of ==, != and reads of all variables"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
