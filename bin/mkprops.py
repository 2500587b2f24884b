#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 bin/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
MATS = ["src/matrix2x2.rs", "src/matrix3x3.rs", "src/matrix4x4.rs", "src/matrix5x5.rs", "src/matrix6x6.rs"]
VECS = ["src/vector2.rs", "src/vector3.rs", "src/vector4.rs", "src/vector5.rs", "src/vector6.rs"]

p("C01", "Element-wise matrix and vector algebra",
  "For every matrix size 2..6 and vector size 2..6 and every supported scalar type, +, -, unary minus, multiplication by a scalar on either side, division by a scalar, the compound assignments += and -=, zero, one/identity and equality act entry by entry exactly like the mathematical vector-space operations. In any sequence of these operations only the assigned object changes.",
  ["inputs", "programs"], "all entries of all operands, all sizes, all scalar types, all sequences of operations",
  "The unit tests run each hand-unrolled operator on one or two constant matrices, many with repeated entries, so a transposed or duplicated index in one of the 36 unrolled lanes can survive.",
  MATS + VECS, [("hand-unrolled operator impls Add/Sub/Neg/Mul<T>/Div<T>/AddAssign/SubAssign/Zero/One", "src/matrix*.rs, src/vector*.rs")])
p("C02", "Matrix and vector products",
  "For every size 2..6, matrix*matrix, matrix*vector and vector*matrix compute the standard row-by-column sums (a vector on the left is a row vector), so products are associative and distributive, the identity is neutral, (AB)^T = B^T A^T and v*A = A^T*v.",
  ["inputs", "programs"], "all operand entries, all sizes, all scalar types, all chains of products",
  "Each product is unrolled by hand (up to 216 terms) and tested on one constant pair; v*A had no test for most sizes.",
  MATS + VECS, [("unrolled Mul impls", "src/matrix*.rs Mul, Mul<Vn>; src/vector*.rs Mul<Mnn>")])
p("C03", "Structural accessors and in-place writes",
  "Row, column, diagonal, upper/lower triangle, flattening, indexing (linear row index, (row, col) pair), sub-matrix, transpose, shape, element-wise map and the constructors (arrays, raw numbers, column vectors, macros, axes, constants) all describe the same matrix or vector: what is written at a position is exactly what every accessor reports for that position. Writes through an index, a mutable view, or the 3x3-quadrant copy into a 6x6 matrix change exactly the addressed entries and nothing else; a position (or quadrant) outside is refused and changes nothing.",
  ["inputs", "histories"], "all contents, all positions, all interleavings of writes and reads",
  "Tests read a few fixed matrices; they never interleave writes with every accessor and do not cover all positions or quadrants.",
  MATS + VECS, [("get_rows/get_cols/get_diagonal/get_upper_triagular/get_lower_triangular/as_vec/new_from_vecs/for_each/transpose/Index/IndexMut/copy_elements_from/get_submatrix", "src/matrix*.rs")])
p("C04", "Determinant, trace and Frobenius norm",
  "For every size 2..6 the determinant equals the Leibniz/Laplace determinant of the entries: it is multiplicative, unchanged by transposition and by adding a multiple of one row to another, negated by a row swap, scaled by a row scaling, 1 on the identity and 0 on matrices with dependent rows. The trace is the sum of the diagonal and the matrix norm is the square root of the sum of squares of all entries.",
  ["inputs", "programs"], "all matrices of all sizes, all sequences of elementary row/column operations",
  "det is a hand-expanded polynomial (720 terms at 6x6); the tests evaluate it on one or two constant matrices, which leaves most terms undetermined.",
  MATS, [("expanded det/trace/norm2", "LinearAlgebra impls in src/matrix*.rs")])
p("C05", "Matrix inverse",
  "For every size 2..6, inverse returns a matrix B with A*B = B*A = identity (within floating-point accuracy) whenever A is invertible, i.e. its determinant is not nearly zero (magnitude below machine epsilon of the scalar type); it returns None when A is singular. It is the unique such matrix: inverting twice returns A, and inverse(AB) = inverse(B)*inverse(A).",
  ["inputs"], "all invertible and singular matrices of all sizes",
  "Tests invert one constant matrix per size; cofactor sign/index slips in untested positions and the singular branch are not determined by that.",
  MATS, [("adjugate/determinant inverse, nearly_zero guard", "inverse in src/matrix*.rs")])
p("C06", "LU factorisation",
  "For every size 2..6 and every non-singular matrix A, the LU routine returns a packed pair (unit lower triangle L, upper triangle U), a pivot sequence and a determinant such that applying the row interchanges k <-> pivot[k] in order to A gives exactly L*U, every pivot[k] is a valid row index >= k, and the returned determinant equals det(A).",
  ["inputs"], "all non-singular matrices of all sizes, in particular every pivoting pattern",
  "Tests factor one matrix per size, so most pivot patterns (and the sign bookkeeping of the determinant) are never taken.",
  MATS, [("Crout/partial pivoting loops", "lu in src/matrix*.rs")],
  [("indx", "row interchange chosen at step k", "lu"), ("d", "parity of interchanges", "lu")])
p("C07", "QR factorisation",
  "For every size 2..6, the QR factorisation of an invertible matrix A (in the sense of C05) returns (Q, R) with Q*R = A, Q orthogonal (Q^T*Q = identity) and R upper triangular with positive diagonal - hence |det R| = |det A| and the factorisation is unique; for a singular matrix it returns None.",
  ["inputs"], "all invertible (well-conditioned) and singular matrices of all sizes",
  "Tests check one constant matrix per size (mainly the product).",
  MATS + ["src/slices_methods.rs"], [("Gram-Schmidt", "qr in src/matrix*.rs; project_x_over_y, normalize in src/slices_methods.rs")])
p("C08", "Vector metrics, normalisation and slice helpers",
  "For every vector size 2..6 and any slice: dot is the sum of products, the cross product is the right-handed one (orthogonal to both factors, |axb|^2 = |a|^2|b|^2-(a.b)^2), the l1, l2 and infinity norms are the sum of absolute values, the root of the sum of squares and the largest absolute value; max/min search returns the extreme values with the position of a first occurrence; projection coefficient is x.y / y.y. normalize returns the unit vector of the same direction for every vector whose computed 2-norm is not zero and an error otherwise (the zero vector, or components whose squares all underflow), without changing its operand.",
  ["inputs"], "all vectors and slices, all lengths, any scale and sign pattern, ties included",
  "Tests use one positive vector per function, which cannot separate max from max-abs, first from last occurrence, or index slips.",
  VECS + ["src/slices_methods.rs"], [("norm2/normalize/cross/norm_l/norm_inf", "src/vector*.rs"), ("find_max_min, dot, project_x_over_y, normalize", "src/slices_methods.rs")])
p("C09", "Quaternion algebra",
  "Quaternions form the Hamilton algebra: product (i*j=k, non-commutative, associative, distributive), sum, difference, negation, scalar multiplication/division, conjugate (anti-automorphism), dot, squared norm (multiplicative), norm, inverse (q*inverse(q)=1 whenever the squared norm of q is not nearly zero, i.e. not below machine epsilon; None for zero) and division a/b = a*inverse(b) agree with that algebra for all operands. derivative(rate) = 1/2*(0,rate)*q.",
  ["inputs", "programs"], "all quaternions, all expressions built from the operations",
  "Tests use a few special quaternions (equal components), which many wrong sign patterns also satisfy.",
  ["src/quaternion.rs"], [("Mul/Add/Sub/Neg/Div/conj/inverse/dot/abs2", "src/quaternion.rs")])
p("C10", "Quaternions and rotation matrices describe the same rotation",
  "For every unit quaternion q the rotation matrix R(q) is orthogonal with determinant 1, R(q)*v = q*v for every vector v (which equals q v q^-1), R(p*q) = R(p)*R(q), R(conj q) = R(q)^T and R(-q) = R(q). Converting a rotation matrix to a quaternion returns a unit quaternion of that same rotation for every rotation matrix, whatever its trace or largest component.",
  ["inputs", "programs"], "all rotations, including half turns and every branch of the matrix-to-quaternion conversion; all chains of compositions and conversions",
  "The conversion has four branches; tests sample one or two rotations about coordinate axes.",
  ["src/quaternion.rs", "src/transformations.rs"], [("to_rotation, from_rotation (4 branches), Mul<V3>", "src/quaternion.rs")])
p("C11", "Axis-angle constructors and elementary rotations",
  "rotation(theta, axis), rotation_norm_encoded(theta*axis), the so(3) axis-angle matrix formula and the elementary matrices rotx/roty/rotz and the 2D rotation all implement the right-handed rotation by theta about the given axis (axis of any non-zero length for the quaternion constructor), so rotations about one axis add their angles; the constructors return unit quaternions. Angle and axis read back from a quaternion (normalised or not, either sign) reproduce that quaternion, and the axis is None for the identity rotation.",
  ["inputs"], "all angles (including negative, beyond pi, tiny) and all axes",
  "Tests use a few angles about coordinate axes.",
  ["src/quaternion.rs", "src/transformations.rs"], [("rotation, rotation_norm_encoded, get_angle, get_axis, axis_angle", "src/quaternion.rs"), ("rotx/roty/rotz/rot2/rotation_from_axis_angle", "src/transformations.rs")])
p("C12", "Euler angles",
  "euler_to_rotation(a, b, c, seq) is the product of elementary rotations about the axes named by the sequence, in that order, for each of the ten sequences and for the default ZYX. The quaternion built from yaw, pitch, roll is the same rotation as the default sequence, and the angles extracted from any rotation (matrix, quaternion or homogeneous matrix), including gimbal lock at pitch = +-90 degrees, rebuild that rotation; away from gimbal lock the original angles with |pitch| < 90 degrees are returned.",
  ["inputs"], "all angle triples, all sequences, all rotations including the singular pitch values",
  "Tests check one triple in the default convention; the other sequences only for being rotations.",
  ["src/transformations.rs", "src/quaternion.rs"], [("euler_to_rotation, rotation_to_euler, get_parts", "src/transformations.rs"), ("from_euler_angles, to_euler_angles", "src/quaternion.rs")])
p("C13", "Spherical linear interpolation",
  "For unit quaternions a and b and t in [0,1], slerp(a,b,t) is a unit quaternion; at t=0 it is a, at t=1 it is b up to sign, and in between it is the rotation reached after the fraction t of the shortest arc from a to b at constant angular speed: if b = +-a*r^n with r a small enough rotation, then slerp(a,b,k/n) = a*r^k up to rounding. This holds for close, distant and sign-flipped end points alike.",
  ["inputs"], "all pairs of unit quaternions and all t in [0,1], including nearly equal and negated end points (exactly opposite rotations, where the shortest arc is not unique, excluded)",
  "One test interpolates a single pair; the near-parallel and sign-reversed branches are not executed.",
  ["src/quaternion.rs"], [("slerp with near-parallel and reverse branches", "src/quaternion.rs")])
p("C14", "Quaternion exponential, logarithm, powers and trigonometry",
  "exp, ln, sqrt, pow, sin and cos of quaternions agree with their power series/principal branches: exp(ln q) = q for non-zero q, ln(exp q) = q for imaginary parts shorter than pi, sqrt(q)*sqrt(q) = q, q^n (quaternion-valued real exponent n) is the n-fold product, sin^2+cos^2 = 1, and exp adds exponents of quaternions with parallel imaginary parts. For quaternions with zero imaginary part they agree with the real functions (ln and sqrt on positive reals).",
  ["inputs"], "all quaternions in the stated domains",
  "Tests evaluate each function at one or two points.",
  ["src/quaternion.rs"], [("exp, ln, sqrt, pow, sin, cos, argq, normalize_q, normalize_a", "src/quaternion.rs")])
p("C15", "Cached normalisation never changes results",
  "Quaternions and dual quaternions cache whether they are normalised, and this cache must be invisible: after any history of constructions (from unit inputs where the constructor requires them) and operations, normalize returns a unit-norm value of the same direction, inverse is a true inverse, ln is the true logarithm, and an object reported as normalised has a unit-norm real part (a zero real part excepted). In particular results of arithmetic (scaling, sums, products) on normalised operands are never mistaken for unit values when they are not, and equality, is_zero and is_one depend on the components alone.",
  ["histories", "inputs"], "all sequences of constructors and operations on quaternions and dual quaternions",
  "The flag is private state whose effect shows only after a multi-step sequence (make a unit value, modify it, then invert/normalise); tests make single calls.",
  ["src/quaternion.rs", "src/dual_quaternion.rs"], [("every constructor/operator chooses the flag", "src/quaternion.rs, src/dual_quaternion.rs")],
  [("Quaternion.normalized", "cached |q|=1", "src/quaternion.rs"), ("DualQuaternion.normalized", "cached unit real part", "src/dual_quaternion.rs")])
p("C16", "Homogeneous transforms",
  "Homogeneous 4x4 matrices built from (rotation, translation) pairs (matrix or quaternion), pure translations, and 2D poses have the standard block form, compose as rigid motions, and split back into the same parts; the homogeneous inverse is the inverse motion, the inverse-transform of a point p is R^T(p - t), the adjoint maps are the 6x6 block matrices [[R,0],[[t]R,R]] and Ad(T1*T2) = Ad(T1)*Ad(T2), Ad(T^-1) = Ad(T)^-1.",
  ["inputs", "programs"], "all rotations and translations, all chains of compositions and inversions",
  "Tests use one rotation about an axis with a translation along one axis.",
  ["src/transformations.rs", "src/matrix6x6.rs"], [("homogeneous_from_rotation/_quaternion, get_parts, get_parts_raw, homogeneous_inverse, homogeneous_inverse_transform, adjoint, ksi, translation_2d/3d", "src/transformations.rs")])
p("C17", "so(3)/se(3) exponential and logarithm",
  "The matrix exponential of a skew matrix theta*[w] is the rotation by theta about w, and of a twist it is the corresponding screw motion (a pure translation for zero angular part); exp(log(R)) = R for every rotation, including the identity and every half turn; exp(log(T)) = T for every rigid motion, and log(exp(x)) = x for rotation angles below pi. Hat/vee conversions (3-vector <-> skew matrix, 6-vector twist <-> se(3) matrix, 2D forms) are mutually inverse, and axis/angle splitting of exponential coordinates returns a unit screw axis and magnitude whose product is the input.",
  ["inputs"], "all axes, angles in [0,pi], translations",
  "Tests reproduce one textbook example per function; the half-turn branches and pure translations are not reached.",
  ["src/transformations.rs"], [("matrix_exponential, matrix_log, matrix_exponential6, matrix_log6, skew_*, twist_to_se3, se3_to_twist, axis_angle, axis_angle6, screw_to_axis", "src/transformations.rs")])
p("C18", "Dual-quaternion algebra",
  "Dual quaternions follow the dual-number algebra over quaternions (e^2 = 0): sum, difference, negation, scalar product and product (associative, distributive, neutral one), the three conjugations with their (anti-)automorphism laws, norm = d*conj(d), inverse with d*inverse(d) = inverse(d)*d = one whenever the squared norm of the real part of d is not nearly zero, and division a/b = a*inverse(b), so (a/b)*b = a.",
  ["inputs", "programs"], "all dual quaternions, all expressions",
  "Tests multiply by one or compare two pure translations/rotations where non-commutativity does not show.",
  ["src/dual_quaternion.rs", "src/quaternion.rs"], [("Mul/Div/inverse/conj*/norm", "src/dual_quaternion.rs")])
p("C19", "Dual quaternions represent rigid motions",
  "A dual quaternion built from a (rotation, translation), a 7-array, a homogeneous matrix, a pure translation or a pure rotation converts back to exactly that rotation matrix/quaternion (up to sign) and translation and homogeneous matrix; the product of dual quaternions is the composition of the motions, the inverse and conjugate are the inverse motion. Transforming a point moves it like the homogeneous matrix does (see known findings for the released handling of the translation part).",
  ["inputs", "programs"], "all rotations (all matrix-to-quaternion branches) and translations, all chains of compositions, conversions and inversions",
  "Tests use small rotations with axis-aligned translations and single steps.",
  ["src/dual_quaternion.rs", "src/transformations.rs"], [("new_from_rot_trans, new_from_array, new_from_homogeneous, new_from_translation, new_from_rotation*, to_homogeneous, to_rotation_translation, to_quaternion_translation, get_translation, transform_point", "src/dual_quaternion.rs")])
p("C20", "Screw motions: parameters, powers, interpolation, logarithm",
  "For a unit dual quaternion with a non-trivial rotation the screw parameters (unit axis l, moment m orthogonal to l, angle theta, displacement d) describe its motion and rebuild it; pow(k) for integer k is the k-fold product, pow(1/n) is an n-th root, pow(0) is the identity and powers of a pure translation scale the translation. Screw interpolation starts at begin, ends at end (up to sign), follows the shorter screw at constant speed (begin*(begin^-1 end)^tau), also when the two representations have opposite signs; the logarithm is half of the screw (theta*l, theta*m + d*l).",
  ["inputs"], "all rigid motions with rotation angle in (0,2pi) and pure translations, all exponents and interpolation parameters",
  "Tests check one motion about a coordinate axis and none with opposite representation signs or pure translations.",
  ["src/dual_quaternion.rs"], [("get_screw_parameters, new_from_screw_parameters, pow, screw_lerp, log", "src/dual_quaternion.rs")])
p("C21", "Real eigenvalues of 2x2 matrices",
  "real_eigenvals of a 2x2 matrix returns both roots of its characteristic polynomial, larger first, when they are real (their sum is the trace, their product the determinant), including repeated roots, and None when the roots are complex.",
  ["inputs"], "all 2x2 matrices",
  "One example matrix is tested.",
  ["src/matrix2x2.rs"], [("real_eigenvals", "src/matrix2x2.rs")])
p("C22", "Approximate comparison and rotation predicates",
  "nearly_equal(a,b,eps) is symmetric and, for everything but NaN, reflexive (infinities included); NaN is equal to nothing; it compares relatively for ordinary magnitudes and absolutely next to zero; the slice/dual-quaternion/float comparisons hold exactly when every component compares within tolerance; the slice search for a (nearly) zero element holds exactly when some element compares equal to zero within tolerance. The rotation predicates accept rotation matrices (and homogeneous matrices of rigid motions) and reject matrices that are clearly not: reflections, scalings, shears and other non-orthogonal matrices even when their determinant is 1; the distance to the rotation manifold is 0 on rotations, the Frobenius norm of M*M^T - I for positive determinant, and infinite otherwise.",
  ["inputs"], "all pairs of floats of any magnitude, all matrices at a clear distance from the manifold, all rotations",
  "Tests compare three pairs of numbers and only accept rotations; rejection is not tested.",
  ["src/utils.rs", "src/transformations.rs"], [("nearly_equal, nearly_zero, compare_vecs, compare_floats, compare_dual_quaternions, is_rotation, is_rotation_h", "src/utils.rs"), ("distance_to_manifold", "src/transformations.rs"), ("check_elements", "src/slices_methods.rs")])
p("C23", "Textual rendering lists every component in order",
  "Formatting a vector, matrix, quaternion or dual quaternion for display prints every component exactly once, in row-major (for quaternions: real part first) order, rounded to two decimals, one matrix row per line.",
  ["inputs"], "all contents of all sizes",
  "No test looks at the rendered text.",
  MATS + VECS + ["src/quaternion.rs", "src/dual_quaternion.rs"], [("Display impls", "src/matrix*.rs, src/vector*.rs, src/quaternion.rs, src/dual_quaternion.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
