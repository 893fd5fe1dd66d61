#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Basis-blade product signs follow the declared signature",
  "For every algebra and every pair of basis-blade indices, the reported wedge sign is Null exactly when the blades share a generator, and otherwise the parity of the transpositions that bring the concatenated generators (each blade written from its highest generator down) into canonical order. The reported geometric sign is Null exactly when the blades share a null generator, and otherwise that same parity negated once for every shared generator that squares to -1. The anticommuting product sign and its negated form are exact opposites and do not depend on whether the dimension is covered by a precomputed table.",
  ["inputs", "configurations"], "all algebras (dimension, signature) and all pairs of blade indices of the algebra",
  "Tests compare a handful of pairs in one 4-dimensional algebra and the tables for dimensions 0..6 against the fallback formula; the fallback itself, the table/fallback boundary, and the mask handling for other signatures are only sampled through random products.",
  ["src/algebra.rs", "src/precomputed.rs", "src/types.rs"],
  [("precomputed sign tables for dim <= 6", "src/precomputed.rs AC_PRODUCT_SIGNS"), ("transposition counting fallback", "src/algebra.rs ac_product_sign"), ("signature-aware signs", "src/algebra.rs ClAlgebra::blade_geo_product_sign / blade_wedge_product_sign"), ("sign multiplication", "src/types.rs Mul for Sign")],
  ["ClAlgebra::blade_wedge_product_sign", "ClAlgebra::blade_geo_product_sign", "ClAlgebra::ac_product_sign", "ClAlgebra::ac_negated_product_sign", "Sign * Sign"])

prop("C02", "The geometric product is the bilinear extension of blade products",
  "For all multivectors a, b of one algebra, any coefficient storage and any coefficient ring (not necessarily commutative), the coefficient of a*b at blade k is the sum over all blade pairs i xor j = k of the geometric sign of (i, j) times a[i] times b[j], in that factor order. All four by-value/by-reference spellings of the operator give this same result.",
  ["inputs", "configurations"], "all operand values, algebras, coefficient rings, storages, and operator spellings",
  "Unit tests multiply a few fixed and random multivectors over f64/Complex64 in a handful of algebras; non-commutative coefficients, other storages, and every operator spelling are barely exercised and never for all values.",
  ["src/lib.rs", "src/ops.rs", "src/coeff_storage.rs", "src/quaternion.rs"],
  [("double loop over stored coefficients with blade signs", "src/lib.rs naive_mul_impl"), ("operator impls", "src/ops.rs Mul")],
  ["Mul for MultivectorBase (4 forms)", "MultivectorBase::naive_mul_impl"])

prop("C03", "Wedge and meet equal their definition in every dimension and storage",
  "For all multivectors a, b, the coefficient of a.wedge(b) at blade k is the sum over disjoint blade pairs i | j = k of the wedge sign times a[i] times b[j], and a.meet(b) equals the undual of the wedge of the duals. Both hold for dense and sparse multivectors, in every dimension (on both sides of any algorithm switch), and leave the operands unchanged.",
  ["inputs", "configurations"], "all operand values, all dimensions and storages",
  "Tests compare the recursive dense algorithm with the naive one at a few dimensions with random f64 values; the small-dimension path, odd block structures, non-commutative coefficients and the meet for general dimension are only sampled.",
  ["src/mv_dense.rs", "src/mv_sparse.rs", "src/lib.rs"],
  [("recursive divide-and-conquer wedge", "src/mv_dense.rs wedge_impl"), ("dimension switch", "src/mv_dense.rs WedgeProduct::wedge/meet"), ("naive products", "src/lib.rs naive_wedge_impl / naive_meet_impl")],
  ["WedgeProduct::wedge", "WedgeProduct::meet", "naive_wedge_impl", "naive_meet_impl"])

prop("C04", "Grade involution, reversal and their variants act bladewise as defined",
  "For every multivector, flip negates exactly the odd-grade coefficients, flip_subspace(mask) negates exactly the coefficients whose blade contains an odd number of the masked generators, and rev negates exactly the coefficients of grade 2 or 3 modulo 4; all other coefficients are returned unchanged. revc is rev with every coefficient complex-conjugated, revm is rev divided by the squared magnitude, and revcm is revc divided by the complex squared magnitude.",
  ["inputs", "configurations"], "all multivectors, masks, storages and dimensions",
  "Tests check a few low-grade blades; grades at or above 4, arbitrary masks and non-dense storages are not enumerated.",
  ["src/lib.rs"],
  [("bladewise sign selection", "src/lib.rs flip, flip_subspace, rev, rev_c, revc, revm, revcm")],
  ["MultivectorBase::{flip, flip_subspace, rev, revc, revm, revcm}"])

prop("C05", "Dual and undual are the signed blade complements and mutual inverses",
  "The dual of a multivector has, at the complement of every blade b, the coefficient of b multiplied by the sign that makes dual(b) wedge b equal to plus the pseudoscalar; undual uses the sign that makes b wedge undual(b) plus the pseudoscalar. Consequently undual(dual(a)) = dual(undual(a)) = a for every multivector a, in every signature including degenerate ones.",
  ["inputs", "configurations"], "all multivectors, signatures and dimensions",
  "Tests check a handful of blades and random multivectors in fixed algebras; the sign rule is a function of the dimension and of every blade.",
  ["src/lib.rs"],
  [("complement index and wedge sign", "src/lib.rs dual / undual")],
  ["MultivectorBase::dual", "MultivectorBase::undual"])

prop("C06", "Scalar products, squared magnitude and component extraction",
  "For all multivectors a, b: vdot(a, b) equals the scalar part of a*b, vsdot(a, b) is the sum over all blades of a[i]*b[i], mag2(a) equals the scalar part of rev(a)*a, and cmag2(a) equals the scalar part of revc(a)*a. scalar_part returns the coefficient of blade 0 and extract_vector returns, for each generator n in order, the coefficient of that generator.",
  ["inputs", "configurations"], "all operand values, signatures, storages and coefficient rings",
  "Tests compare a few random cases in positive or mixed signatures; degenerate signatures, complex conjugation and every blade square are only sampled.",
  ["src/lib.rs"],
  [("linear-time dot products using blade squares", "src/lib.rs vdot, vsdot, mag2, cmag2"), ("component access", "src/lib.rs scalar_part, extract_vector")],
  ["MultivectorBase::{vdot, vsdot, mag2, cmag2, scalar_part, extract_vector}"])

prop("C07", "Addition, subtraction, negation and scalar scaling act per coefficient",
  "For all multivectors a, b and scalars s and every blade i: (a+b)[i] = a[i]+b[i], (a-b)[i] = a[i]-b[i], (-a)[i] = -a[i], (a*s)[i] = a[i]*s and (a/s)[i] = a[i]/s, with the scalar on the right of the coefficient. This holds for the dense, sparse and quaternion storages and for every by-value/by-reference spelling of each operator.",
  ["inputs", "configurations"], "all operand values, storages and operator spellings",
  "Tests use these operators only as building blocks on a few storages and spellings; sparse cancellation and quaternion component order are not enumerated.",
  ["src/ops.rs", "src/coeff_storage.rs", "src/quaternion.rs", "src/lib.rs"],
  [("storage addition and subtraction", "src/coeff_storage.rs CoeffStorage::add/sub, src/quaternion.rs"), ("operator impls", "src/ops.rs")],
  ["Add, Sub, Neg, Mul<T>, Div<T> for MultivectorBase"])

prop("C08", "Coefficient get/set/enumerate behave as a total map over blade indices",
  "In every storage a freshly created multivector reads zero everywhere; after setting blade i to v, reading i gives v and every other blade is unchanged; setting an index outside the algebra changes nothing and reading one returns zero without panicking. Enumerating coefficients yields each blade index of the algebra at most once, paired with its current value, and omits only blades whose coefficient is zero; the mutable enumeration addresses the same coefficients.",
  ["inputs", "histories", "configurations"], "all set/get/enumerate sequences, all indices including out-of-range ones, all storages",
  "Tests never read an index at or beyond the end of a storage and inspect enumeration only through aggregate results.",
  ["src/coeff_storage.rs", "src/quaternion.rs", "src/lib.rs"],
  [("dense array storage", "src/coeff_storage.rs ArrayStorage"), ("hash-map storage", "src/coeff_storage.rs SparseStorage"), ("quaternion storage", "src/quaternion.rs QStorage")],
  ["MultivectorBase::{get_by_idx, set_by_idx, coeff_enumerate}", "Default/Zero"])

prop("C09", "Sparse multivectors never store zero coefficients",
  "After every operation that produces or updates a sparse multivector, the coefficients it stores (as seen by enumeration) are non-zero, and coeff_count equals the number of blades with a non-zero coefficient. In particular cancellation in sums, differences and products, and writing zero, remove the entry.",
  ["histories", "inputs"], "all operation sequences producing or mutating sparse multivectors",
  "One test counts coefficients after a cancellation; the invariant quantifies over all operations and operand values.",
  ["src/coeff_storage.rs", "src/mv_sparse.rs", "src/ops.rs"],
  [("zero-removing setter", "src/coeff_storage.rs SparseStorage::set_by_idx"), ("entry filtering", "src/mv_sparse.rs filter_inplace"), ("all writers go through the setter", "src/lib.rs, src/ops.rs")],
  ["SparseMultivector::{coeff_count, coeff_enumerate, filter_inplace, filtered, retain_grades}"])

prop("C10", "Constructors accept exactly well-shaped input and place it correctly",
  "from_vector and from_vector_ref succeed exactly when given as many items as the algebra has generators, and put item n on generator n; otherwise they return InvalidShape. from_indexed_iter and from_indexed_iter_ref fail with IndexOutOfBounds exactly when some index is not a blade of the algebra, and otherwise each blade holds the last value supplied for it and all others are zero. from_scalar, one, zero and basis give the scalar, 1, 0 and the generators in order.",
  ["inputs", "configurations"], "all input sequences (any length and indices), algebras and storages",
  "Tests exercise a few valid shapes and few error cases; boundary indices and lengths for arbitrary dimension are not covered.",
  ["src/lib.rs", "src/algebra.rs"],
  [("length and index validation", "src/lib.rs from_vector, from_indexed_iter"), ("basis construction", "src/algebra.rs ClBasis::basis / basis_sparse")],
  ["MultivectorBase::{from_scalar, from_vector, from_vector_ref, from_indexed_iter, from_indexed_iter_ref}", "ClBasis::{basis, basis_sparse}", "One::one", "Zero::zero"])

prop("C11", "Grade selection and filtering keep exactly the requested blades",
  "grade_extract(k), grade_extract_as(k) and grade_enumerate(k) select exactly the coefficients of blades with k generators; grades_extract and retain_grades keep exactly the coefficients whose grade is listed; filter, filtered and filter_inplace keep exactly the coefficients accepted by the predicate. All kept coefficients are unchanged and everything else becomes zero.",
  ["inputs", "configurations"], "all multivectors, grades, grade lists and predicates, all storages",
  "Tests extract a few grades from fixed multivectors.",
  ["src/lib.rs", "src/mv_sparse.rs", "src/mv_dense.rs", "src/coeff_storage.rs", "src/quaternion.rs", "src/index_utils.rs"],
  [("grade enumeration per storage", "CoeffStorage::grade_enumerate"), ("filters", "src/mv_sparse.rs, src/mv_dense.rs")],
  ["MultivectorBase::{grade_extract, grade_extract_as, grade_enumerate}", "SparseMultivector::{grades_extract, retain_grades, filter_inplace, filtered}", "Multivector::filter"])

prop("C12", "Storage conversions and complexification round trips lose nothing",
  "to_storage_type, to_sparse and to_dense preserve every coefficient. complexify multiplies the coefficient of a blade by (-i) to the number of its generators squaring to -1, decomplexify multiplies by i to that number and takes the real part when a real type is requested, so that complexify followed by decomplexify returns the original multivector.",
  ["inputs", "configurations"], "all multivectors, signatures, storages and supported coefficient types",
  "One test round-trips two multivectors in one 9-dimensional signature.",
  ["src/lib.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/complexification.rs", "src/types.rs"],
  [("conversion loops", "src/lib.rs to_storage_type"), ("powers of i", "src/complexification.rs complexify / decomplexify"), ("scalar conversions", "src/types.rs FromComplex / IntoComplex64")],
  ["to_storage_type", "to_sparse", "to_dense", "complexify", "decomplexify"])

prop("C13", "Equality, zero test and approximate equality are coefficientwise",
  "Two multivectors of one type compare equal exactly when all coefficients are equal, and is_zero is true exactly when all coefficients are zero, in every storage and regardless of the history that produced the values. approx_eq with a positive precision p is true exactly when every coefficient of the difference has norm below p; cloning yields an equal value.",
  ["inputs", "histories"], "all pairs of multivectors, storages and precisions",
  "Tests use equality as an oracle and never vary one coefficient at a time on either side.",
  ["src/lib.rs", "src/coeff_storage.rs", "src/quaternion.rs"],
  [("storage equality", "src/coeff_storage.rs PartialEq"), ("zero test and approximate equality", "src/lib.rs is_zero, approx_eq")],
  ["PartialEq, Zero::is_zero, approx_eq, Clone for MultivectorBase"])

prop("C14", "The matrix transform is an invertible representation with shape errors",
  "For every array of 2^n coefficients, the public transform yields the square matrix of side 2^ceil(n/2) that represents the multivector in the all-positive algebra: it is linear in the coefficients, maps each generator to its fixed gamma matrix and products of blades to products of matrices. The inverse transform of a square power-of-two matrix recovers the coefficients exactly (up to rounding), zero-padded when n is odd; inputs of any other length or shape, including a destination of the wrong size, are reported as InvalidShape rather than mis-transformed.",
  ["inputs", "configurations"], "all coefficient arrays of all sizes, all matrix shapes and destinations",
  "Tests round-trip random arrays at a few sizes and check one product homomorphism; wrong shapes are barely tested.",
  ["src/clifft/mod.rs"],
  [("recursive block transform", "src/clifft/mod.rs clifft_nn / clifft_nn_into"), ("recursive inverse", "src/clifft/mod.rs iclifft_nn / iclifft_nn_into"), ("powers of i on odd axes", "src/clifft/mod.rs clifft, iclifft_into"), ("shape validation", "src/clifft/mod.rs cl_dim")],
  ["clifft::clifft", "clifft::iclifft", "clifft::iclifft_into"])

prop("C15", "Fast representation layout and round trip for every signature",
  "For every multivector m of Cl(p,q,s), m.fft() has shape (2^s, 2^ceil((p+q)/2), 2^ceil((p+q)/2)) and its slice w is the matrix transform of the complexified coefficients whose null-generator part is w. ifft is its inverse for every signature, including odd p+q and degenerate ones, dropping only the padding generator. from_array3 and from_array2 accept exactly the arrays of that shape and keep them unchanged.",
  ["inputs", "configurations"], "all multivectors and signatures",
  "Tests round-trip a few signatures with random values; odd non-null dimension combined with null generators is covered by a single case.",
  ["src/mv_dense.rs", "src/fftrepr/mod.rs", "src/complexification.rs"],
  [("block layout", "src/mv_dense.rs fft"), ("inverse layout and padding removal", "src/fftrepr/mod.rs ifft, src/complexification.rs into_original")],
  ["Multivector::fft", "FFTRepr::ifft", "FFTRepr::from_array3", "FFTRepr::shape"])

prop("C16", "Fast representation arithmetic mirrors multivector arithmetic",
  "Addition, subtraction, negation and scaling of fast representations act entrywise, and the product of two representations has at null index w the sum over disjoint u | v = w of the signed matrix products, with the left factor grade-involuted once per generator of v. Zero and one have the documented shape and represent 0 and 1, and the operands are left unchanged in all spellings.",
  ["inputs", "configurations"], "all representations, all numbers of null generators, all operator spellings",
  "Tests compare a few random products at fixed signatures; deeper null recursion and operator spellings are sampled.",
  ["src/fftrepr/mod.rs", "src/fftrepr/wmul.rs"],
  [("recursive product over null generators", "src/fftrepr/wmul.rs wmul / wmul_impl"), ("operator impls", "src/fftrepr/mod.rs")],
  ["Add, Sub, Mul, Div, Neg, Zero, One, PartialEq, Clone for FFTRepr"])

prop("C17", "Representation flip, reversal, trace and magnitude match the multivector",
  "On fast representations flip and rev represent the grade involution and the reversal of the represented multivector for any number of null generators; trace is the sum of the diagonal of the null-free slice, ntrace is trace divided by the matrix side, and mag2 is the ntrace of rev times self. The half-spin pair consists of the even-parity and odd-parity row/column submatrices in increasing index order.",
  ["inputs", "configurations"], "all representations and signatures",
  "Tests check a few algebras; the four cases of null-grade modulo 4 in the reversal are not all covered.",
  ["src/fftrepr/mod.rs", "src/clifft/mod.rs"],
  [("slicewise reversal with null-grade cases", "src/fftrepr/mod.rs rev"), ("flip, trace, ntrace, mag2, half spin", "src/fftrepr/mod.rs")],
  ["FFTRepr::{flip, rev, trace, ntrace, mag2, into_half_spin_repr, into_array2, into_array3, from_array2}"])

prop("C18", "Integer powers are repeated products",
  "For every multivector or fast representation x and every exponent n, pow(x, n) is the n-fold product of x with itself, with pow(x, 0) = 1 and pow(x, 1) = x.",
  ["inputs"], "all bases and all exponents",
  "Tests use exponents 2, 4, 6, 8 and a few others on specific rotors.",
  ["src/lib.rs", "src/fftrepr/mod.rs"],
  [("square-and-multiply recursion", "src/lib.rs pow, src/fftrepr/mod.rs pow")],
  ["MultivectorBase::pow", "FFTRepr::pow"])

prop("C19", "Matrix-level automorphisms match the algebra automorphisms",
  "For a square matrix of power-of-two side, parity_flip negates exactly the entries whose row and column indices differ in an odd number of bits; imaginary_flip represents negating every odd-position generator and reversal represents reversing every product. Non-square or non-power-of-two matrices are reported as InvalidShape by imaginary_flip and reversal.",
  ["inputs"], "all matrices of all shapes",
  "Tests check small matrices of representable multivectors only.",
  ["src/clifft/mod.rs"],
  [("recursive block swap", "src/clifft/mod.rs imaginary_flip"), ("entrywise sign", "src/clifft/mod.rs parity_flip, alpha")],
  ["clifft::{parity_flip, imaginary_flip, reversal}"])

prop("C20", "Representation inverse exists exactly for invertible elements",
  "For every fast representation of a non-degenerate algebra, inv returns a two-sided inverse when the matrix is invertible and None when it is singular, independent of which pivots happen to vanish during elimination.",
  ["inputs"], "all square complex matrices",
  "A test inverts six fixed 3x3 matrices, none of which has an intermediate zero on the diagonal.",
  ["src/fftrepr/matrix.rs", "src/fftrepr/mod.rs"],
  [("Gauss-Jordan elimination with partial pivoting", "src/fftrepr/matrix.rs matrix_inv")],
  ["FFTRepr::inv"])

prop("C21", "declare_algebra! derives masks, dimension and marker traits from the signature",
  "For every accepted signature, the declared algebra reports its length as dimension, masks with bit n set according to the n-th sign, matching per-sign counts and signature() arrays, and the given (or default e<n>) axis names. It implements exactly the marker traits its signature calls for: split signature only for +,- repeated, non-degenerate only without 0, projective only for +,...,+,0, complex only for -, quaternionic only for -,-, and division exactly for those two.",
  ["configurations", "programs"], "all signatures accepted by the declaration macro",
  "Tests declare about twenty algebras and rely on a few of the traits; absence of a trait is never tested.",
  ["src/algebra.rs"],
  [("token-munching mask macros", "src/algebra.rs produce_mask_*"), ("marker trait macros", "src/algebra.rs impl_split_signature, impl_non_degenerate, impl_pga, impl_complex_or_quaternionic")],
  ["declare_algebra!", "ClAlgebraBase", "ClBasis::signature / signaturef"])

prop("C22", "Ill-formed declarations and cross-algebra mixing are rejected at compile time",
  "A signature with a null generator before a non-null one, an axis-name list of the wrong length, an unknown sign, or a dimension too large for blade indices to be represented is a compile error. Multivectors of different algebras or coefficient types cannot be combined, and operations restricted to division, split, non-degenerate or projective algebras do not compile for other algebras.",
  ["programs", "configurations"], "all client programs",
  "Ordinary tests cannot assert that a program does not compile; there are no compile-fail tests in the repository.",
  ["src/algebra.rs", "src/ops.rs", "src/fftrepr/mod.rs", "src/pga.rs"],
  [("order check macros and const assertions", "src/algebra.rs order_check, impl_algebra_base"), ("algebra type parameter on every value", "src/lib.rs MultivectorBase"), ("trait bounds on restricted operations", "src/ops.rs Div, src/pga.rs, src/fftrepr/mod.rs")],
  ["declare_algebra!", "public trait bounds"])

prop("C23", "Complexified algebras describe the right signature",
  "The algebra of a complexified multivector has the same dimension as the original, its formerly +1 and -1 generators all square to +1 and its null generators stay null. Its axis names are the original ones, wrapped as (i*name) exactly for generators that squared to -1, and it is non-degenerate whenever the original is.",
  ["configurations"], "all algebras",
  "One test checks one mixed signature.",
  ["src/complexification.rs"],
  [("derived algebra descriptor", "src/complexification.rs Complexification")],
  ["algebra of MultivectorBase::complexify results"])

prop("C24", "Formatting prints every non-zero term once, parenthesised and labelled",
  "Display, LowerExp and UpperExp print the non-zero coefficients in enumeration order separated by ' + ', each followed by a space and its blade label when the label is non-empty, and print the zero coefficient alone when there are none. A coefficient is parenthesised exactly when its own rendering contains a sign or an explicit sign was requested; the alternate flag prints the reversed label with the correspondingly reversed coefficient.",
  ["inputs", "configurations"], "all multivectors, format traits and flags",
  "Tests compare a few formatted strings.",
  ["src/lib.rs"],
  [("formatting loop", "src/lib.rs impl_formatting")],
  ["Display, LowerExp, UpperExp for MultivectorBase"])

prop("C25", "Blade labels list exactly the blade's generators in the stated order",
  "The label of a blade is the '^'-joined list of the axis names of its generators from highest to lowest, the reversed label lists them from lowest to highest, and the scalar blade has an empty label. Iterating the algebra's blade indices yields 0, 1, ..., 2^dim - 1.",
  ["inputs", "configurations"], "all algebras and blade indices",
  "One test checks five labels of one algebra.",
  ["src/algebra.rs"],
  [("label construction", "src/algebra.rs blade_label, blade_label_rev, index_iter")],
  ["ClAlgebra::{blade_label, blade_label_rev, index_iter}"])

prop("C26", "Projective-geometry constructors encode and decode points, planes, motors",
  "In a projective algebra with n Euclidean generators, a point built from n coordinates is the dual of the vector (coordinates, 1) up to a common positive scale and decodes to the same coordinates, a hyperplane has the n+1 given coefficients as its vector part up to a common positive scale, and a translation is 1 plus half of each displacement on the corresponding null bivector. Each constructor returns InvalidShape unless exactly the required number of values is given.",
  ["inputs", "configurations"], "all coordinate lists (of any length) and dimensions",
  "Tests use one 3D and one 2D example with valid input lengths.",
  ["src/pga.rs"],
  [("dual-based point encoding", "src/pga.rs pga_point / pga_extract_point"), ("translation motor", "src/pga.rs pga_translation")],
  ["PGAMV::{pga_point, pga_hyperplane, pga_translation, pga_extract_point}"])

prop("C27", "Quaternion units, conjugation, norm and division",
  "The quaternion units satisfy i*i = j*j = k*k = i*j*k = -1, conj negates exactly the three imaginary components, and norm is the square root of the sum of squared component norms. In every division algebra a/b equals a times the conjugate of b divided by the scalar part of b times its conjugate, in every spelling.",
  ["inputs"], "all quaternions, all operands in division algebras",
  "Tests check a few unit products and one or two quotients.",
  ["src/quaternion.rs", "src/ops.rs"],
  [("unit constructors and conj", "src/quaternion.rs"), ("division via conjugate", "src/ops.rs Div")],
  ["Quaternion::{i, j, k, conj}", "Norm for Quaternion", "Div for MultivectorBase"])

prop("C28", "No unsafe escape, hidden state or thread hazard in the public types",
  "All user-written unsafe code is confined to the array-building helper, which initialises every element exactly once before exposing the array. The library keeps no mutable global state, no interior mutability and no I/O, so every result depends only on the arguments, and its public value types are Send and Sync whenever their coefficients are.",
  ["programs", "schedules", "histories"], "all client programs, threads and call histories",
  "Tests run single-threaded on small arrays; absence of hidden state and exact initialisation are whole-program facts.",
  ["src/algebra.rs", "src/lib.rs"],
  [("single unsafe helper", "src/algebra.rs make_array"), ("plain owned data in all value types", "src/lib.rs, src/coeff_storage.rs, src/fftrepr/mod.rs")],
  ["ClBasis::basis", "all public types"])

prop("C29", "Total operations never panic on valid multivectors",
  "Arithmetic, products, involutions, duals, dot products, grade selection, conversions, transforms and their inverses, and the fallible constructors do not panic for any multivector values of any declared algebra (coefficient arithmetic itself being total). Fallible constructors report bad input through their error result instead.",
  ["inputs", "configurations"], "all operands, signatures, storages and input sequences",
  "Panic freedom over all inputs and dimensions cannot be observed by example; several unwraps and index operations sit behind shape assumptions.",
  ["src/lib.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/complexification.rs", "src/coeff_storage.rs"],
  [("internal unwraps guarded by shape invariants", "src/lib.rs, src/complexification.rs, src/mv_sparse.rs"), ("bounds-checked accessors", "src/coeff_storage.rs")],
  ["public methods of MultivectorBase"])

prop("C30", "Exponentials converge to the power series",
  "exp of a multivector or fast representation equals the exponential power series of its argument: apart from rounding, its relative error on every eigenspace of the argument is at most a small multiple of the machine epsilon times one plus the sum of the coefficient norms, as long as that sum is below 2^53. In particular exp(0) = 1, the exponential of a scalar is that of the number, and large elements of small or zero magnitude are treated with the same accuracy. The argument is left unchanged.",
  ["inputs"], "all multivectors and representations whose coefficient norms sum to less than 2^53, every signature",
  "Tests check a few rotors and small random elements; large elements of vanishing magnitude in indefinite algebras, where the series blows up if scaled by the magnitude, do not occur.",
  ["src/lib.rs", "src/fftrepr/mod.rs"],
  [("scaled Taylor series", "src/lib.rs exp, src/fftrepr/mod.rs exp")],
  ["MultivectorBase::exp", "FFTRepr::exp"])

prop("C31", "Fast representations compare and copy entry by entry",
  "Two fast representations of one algebra compare equal exactly when all their entries, at every null index, are equal (as complex numbers), and is_zero is true exactly when all entries are zero. approx_eq with a positive precision p is true exactly when every entrywise difference has norm below p. clone and view give the same entries in the same shape, and none of these changes its operands.",
  ["inputs", "configurations"], "all representations of all algebras, every positive precision",
  "Tests compare representations that are equal, or that differ everywhere.",
  ["src/fftrepr/mod.rs"],
  [("comparisons", "src/fftrepr/mod.rs eq, approx_eq, is_zero")],
  ["FFTRepr::{eq, ne, is_zero, approx_eq, clone, view}"])

prop("C32", "The real transform represents split-signature multivectors",
  "For every multivector a of an algebra with signature +,- repeated n times, over any division ring of coefficients, real_fft(a) is a square matrix of side 2^n that is linear in the coefficients; the matrix of 1 is the identity and the matrix of a product of two blades is the product of their matrices, so that over commuting coefficients real_fft(a*b) = real_fft(a) real_fft(b). The multivector is left unchanged.",
  ["inputs", "configurations"], "all split signatures, all multivectors, any coefficient division ring",
  "No test calls real_fft; the recursive kernel is only exercised with complex coefficients.",
  ["src/mv_dense.rs", "src/clifft/mod.rs"],
  [("real transform", "src/mv_dense.rs real_fft, src/clifft/mod.rs clifft_nn")],
  ["Multivector::real_fft"])

prop("C33", "The padded algebra adds one positive generator exactly when needed",
  "The algebra used to undo the transform equals the original when the number of its non-null generators is even. When it is odd, it has one more generator, which squares to +1 and comes right after the non-null ones; the null generators move up by one position, and masks, counts and axis names of all original generators are those of the original algebra. Converting a multivector of the padded algebra back keeps the coefficients of all blades without the added generator and drops the others.",
  ["configurations", "inputs"], "all algebras, all multivectors of the padded algebra",
  "One test checks the descriptor of one odd and one even signature with two null generators.",
  ["src/complexification.rs"],
  [("padded algebra descriptor", "src/complexification.rs Even"), ("conversion back", "src/complexification.rs into_original")],
  ["complexification::Even", "FFTRepr::ifft"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
