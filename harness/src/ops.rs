//! One entry per public operation of the crate: name -> call on real objects.
use crate::val::{Scal, Val};
use num::traits::FloatConst;
use num::{Float, One, Zero};
use static_math::slices_methods as sl;
use static_math::traits::LinearAlgebra;
use static_math::transformations as tr;
use static_math::utils as ut;
use static_math::*;

type R<T> = Option<Val<T>>;

fn toarr<T: Copy, const N: usize>(v: &[T]) -> [T; N] {
    let mut r = [v[0]; N];
    r.copy_from_slice(&v[..N]);
    r
}

fn refused(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

macro_rules! mat_num {
    ($f:ident, $M:ident, $V:ident, $MV:ident, $VV:ident, $n:expr, [$($i:expr),*], $mac:expr) => {
        pub fn $f<T: Scal>(op: &str, a: &[Val<T>]) -> R<T> {
            use Val::*;
            Some(match (op, a) {
                ("add", [$MV(x), $MV(y)]) => $MV(*x + *y),
                ("sub", [$MV(x), $MV(y)]) => $MV(*x - *y),
                ("addassign", [$MV(x), $MV(y)]) => { let mut r = *x; r += *y; $MV(r) }
                ("subassign", [$MV(x), $MV(y)]) => { let mut r = *x; r -= *y; $MV(r) }
                ("neg", [$MV(x)]) => $MV(-*x),
                ("muls", [$MV(x), S(s)]) => $MV(*x * *s),
                ("divs", [$MV(x), S(s)]) => $MV(*x / *s),
                ("lmuls", [S(s), $MV(_)]) => return s.lmul(&a[1]),
                ("mul", [$MV(x), $MV(y)]) => $MV(*x * *y),
                ("mul", [$MV(x), $VV(y)]) => $VV(*x * *y),
                ("mul", [$VV(x), $MV(y)]) => $VV(*x * *y),
                ("eq", [$MV(x), $MV(y)]) => B(*x == *y),
                ("zero", [$MV(_)]) => $MV($M::zeros()),
                ("zero_t", [$MV(_)]) => $MV(<$M<T> as Zero>::zero()),
                ("is_zero", [$MV(x)]) => B(x.is_zero()),
                ("is_one", [$MV(x)]) => B(One::is_one(x)),
                ("one", [$MV(_)]) => $MV($M::identity()),
                ("one_t", [$MV(_)]) => $MV(<$M<T> as One>::one()),
                ("rows", [$MV(x)]) => U(x.rows()),
                ("cols", [$MV(x)]) => U(x.cols()),
                ("get_rows", [$MV(x)]) => { let r = x.get_rows(); A(r.iter().flat_map(|v| v.iter().copied()).collect()) }
                ("get_cols", [$MV(x)]) => { let r = x.get_cols(); A(r.iter().flat_map(|v| v.iter().copied()).collect()) }
                ("diag", [$MV(x)]) => $VV(x.get_diagonal()),
                ("as_vec", [$MV(x)]) => A(x.as_vec().to_vec()),
                ("map", [$MV(x)]) => $MV(x.for_each(|e| e + e + T::one())),
                ("at", [$MV(x), U(i), U(j)]) => S(x[(*i, *j)]),
                ("atrow", [$MV(x), U(i)]) => A(x[*i].to_vec()),
                ("set", [$MV(x), U(i), U(j), S(s)]) => { let mut r = *x; r[(*i, *j)] = *s; $MV(r) }
                ("setrow", [$MV(x), U(i), U(j), S(s)]) => { let mut r = *x; r[*i][*j] = *s; $MV(r) }
                ("setflat", [$MV(x), U(i), U(j), S(s)]) => { let mut r = *x; *r.iter_mut().flatten().nth($n * *i + *j).unwrap() = *s; $MV(r) }
                ("ctor_new", [A(v), U($n)]) => { let mut d = [[T::zero(); $n]; $n]; for i in 0..$n { for j in 0..$n { d[i][j] = v[$n * i + j]; } } $MV($M::new(d)) }
                ("ctor_from", [A(v), U($n)]) => { let mut d = [[T::zero(); $n]; $n]; for i in 0..$n { for j in 0..$n { d[i][j] = v[$n * i + j]; } } $MV($M::from(d)) }
                ("ctor_macro", [A(v), U($n)]) => $MV(($mac)(v)),
                // a write that may be refused: (refused, the object afterwards)
                ("tryset", [$MV(x), U(i), U(j), S(s)]) => { let mut r = *x; let e = refused(|| r[(*i, *j)] = *s); Tup(vec![B(e), $MV(r)]) }
                ("trysetrow", [$MV(x), U(i), U(j), S(s)]) => { let mut r = *x; let e = refused(|| r[*i][*j] = *s); Tup(vec![B(e), $MV(r)]) }
                ("tryvset", [$VV(x), U(i), S(s)]) => { let mut r = *x; let e = refused(|| r[*i] = *s); Tup(vec![B(e), $VV(r)]) }
                // v: the columns, one after the other
                ("from_cols", [A(v), U($n)]) => {
                    $MV($M::new_from_vecs($V::new([$( $V::new(toarr(&v[$n * $i..$n * $i + $n])) ),*])))
                }
                ("vctor_new", [A(v), U($n)]) => $VV($V::new(toarr(v))),
                ("vctor_from", [A(v), U($n)]) => { let d: [T; $n] = toarr(v); $VV($V::from(d)) }
                ("vctor_args", [A(v), U($n)]) => $VV($V::new_from($( v[$i] ),*)),
                ("vat", [$VV(x), U(i)]) => S(x[*i]),
                ("vlen", [$VV(x)]) => U(x.len()),
                ("vset", [$VV(x), U(i), S(s)]) => { let mut r = *x; r[*i] = *s; $VV(r) }
                ("vsetflat", [$VV(x), U(i), S(s)]) => { let mut r = *x; *r.iter_mut().nth(*i).unwrap() = *s; $VV(r) }
                ("ones", [$VV(_)]) => $VV($V::ones()),
                ("add", [$VV(x), $VV(y)]) => $VV(*x + *y),
                ("sub", [$VV(x), $VV(y)]) => $VV(*x - *y),
                ("addassign", [$VV(x), $VV(y)]) => { let mut r = *x; r += *y; $VV(r) }
                ("subassign", [$VV(x), $VV(y)]) => { let mut r = *x; r -= *y; $VV(r) }
                ("neg", [$VV(x)]) => $VV(-*x),
                ("muls", [$VV(x), S(s)]) => $VV(*x * *s),
                ("divs", [$VV(x), S(s)]) => $VV(*x / *s),
                ("lmuls", [S(s), $VV(_)]) => return s.lmul(&a[1]),
                ("mul", [$VV(x), $VV(y)]) => S(*x * *y),
                ("eq", [$VV(x), $VV(y)]) => B(*x == *y),
                ("zero", [$VV(_)]) => $VV($V::zeros()),
                ("zero_t", [$VV(_)]) => $VV(<$V<T> as Zero>::zero()),
                ("is_zero", [$VV(x)]) => B(x.is_zero()),
                ("norm_inf", [$VV(x)]) => S(x.norm_inf()),
                ("norm_l", [$VV(x)]) => S(x.norm_l()),
                ("max_min", [$VV(x)]) => { let r = sl::find_max_min(&x[..]); Tup(vec![S(r.max.0), U(r.max.1), S(r.min.0), U(r.min.1)]) }
                _ => return Option::None,
            })
        }
    };
}
mat_num!(n2, M22, V2, M2, W2, 2, [0, 1], |v: &Vec<T>| m22_new!(v[0], v[1]; v[2], v[3]));
mat_num!(n3, M33, V3, M3, W3, 3, [0, 1, 2], |v: &Vec<T>| m33_new!(v[0], v[1], v[2]; v[3], v[4], v[5]; v[6], v[7], v[8]));
mat_num!(n4, M44, V4, M4, W4, 4, [0, 1, 2, 3], |v: &Vec<T>| m44_new!(v[0], v[1], v[2], v[3]; v[4], v[5], v[6], v[7]; v[8], v[9], v[10], v[11]; v[12], v[13], v[14], v[15]));
mat_num!(n5, M55, V5, M5, W5, 5, [0, 1, 2, 3, 4], |v: &Vec<T>| m55_new!(v[0], v[1], v[2], v[3], v[4]; v[5], v[6], v[7], v[8], v[9]; v[10], v[11], v[12], v[13], v[14]; v[15], v[16], v[17], v[18], v[19]; v[20], v[21], v[22], v[23], v[24]));
mat_num!(n6, M66, V6, M6, W6, 6, [0, 1, 2, 3, 4, 5], |v: &Vec<T>| m66_new!(v[0], v[1], v[2], v[3], v[4], v[5]; v[6], v[7], v[8], v[9], v[10], v[11]; v[12], v[13], v[14], v[15], v[16], v[17]; v[18], v[19], v[20], v[21], v[22], v[23]; v[24], v[25], v[26], v[27], v[28], v[29]; v[30], v[31], v[32], v[33], v[34], v[35]));

macro_rules! mat_flt {
    ($f:ident, $M:ident, $V:ident, $MV:ident, $VV:ident, $n:expr) => {
        pub fn $f<T: Scal + Float + FloatConst>(op: &str, a: &[Val<T>]) -> R<T> {
            use Val::*;
            Some(match (op, a) {
                ("transpose", [$MV(x)]) => $MV(x.transpose()),
                ("trace", [$MV(x)]) => S(x.trace()),
                ("norm2", [$MV(x)]) => S(x.norm2()),
                ("det", [$MV(x)]) => S(x.det()),
                ("shape", [$MV(x)]) => { let s = x.shape(); Us(vec![s.0, s.1, LinearAlgebra::rows(x), LinearAlgebra::cols(x)]) }
                ("inverse", [$MV(x)]) => match x.inverse() { Some(r) => $MV(r), Option::None => None },
                ("qr", [$MV(x)]) => match x.qr() { Some((q, r)) => Tup(vec![$MV(q), $MV(r)]), Option::None => None },
                ("qr_q", [$MV(x)]) => match x.qr() { Some((q, _)) => $MV(q), Option::None => None },
                ("qr_r", [$MV(x)]) => match x.qr() { Some((_, r)) => $MV(r), Option::None => None },
                // L * U with the row interchanges undone
                ("lu_rebuild", [$MV(x)]) => {
                    let (lu, _, ix) = x.lu();
                    let mut a = $M::zeros();
                    for i in 0..$n { for j in 0..$n {
                        let mut s = T::zero();
                        for k in 0..=(if i < j { i } else { j }) {
                            s = s + (if i == k { T::one() } else { lu[(i, k)] }) * lu[(k, j)];
                        }
                        a[(i, j)] = s;
                    } }
                    for k in (0..$n).rev() { for j in 0..$n {
                        let t = a[(k, j)];
                        a[(k, j)] = a[(ix[k], j)];
                        a[(ix[k], j)] = t;
                    } }
                    $MV(a)
                }
                ("lu", [$MV(x)]) => {
                    let (lu, det, ix) = x.lu();
                    Tup(vec![$MV(lu), S(det), Us(ix.iter().copied().collect())])
                }
                // unit lower triangle and upper triangle of the packed result
                ("lu_parts", [$MV(x)]) => {
                    let (lu, det, ix) = x.lu();
                    let (mut l, mut u) = ($M::zeros(), $M::zeros());
                    for i in 0..$n { for j in 0..$n {
                        if i > j { l[(i, j)] = lu[(i, j)] } else { u[(i, j)] = lu[(i, j)] }
                        if i == j { l[(i, j)] = T::one() }
                    } }
                    Tup(vec![$MV(l), $MV(u), S(det), Us(ix.iter().copied().collect())])
                }
                ("lu_det", [$MV(x)]) => S(x.lu().1),
                ("norm2", [$VV(x)]) => S(x.norm2()),
                ("normalize", [$VV(x)]) => {
                    #[allow(unused_mut)]
                    let mut y = *x;
                    match y.normalize() {
                        // the operand must not have changed
                        Ok(r) => Tup(vec![$VV(r), $VV(y)]),
                        std::result::Result::Err(_) => Tup(vec![Err, $VV(y)]),
                    }
                }
                _ => return Option::None,
            })
        }
    };
}
mat_flt!(f2, M22, V2, M2, W2, 2);
mat_flt!(f3, M33, V3, M3, W3, 3);
mat_flt!(f4, M44, V4, M4, W4, 4);
mat_flt!(f5, M55, V5, M5, W5, 5);
mat_flt!(f6, M66, V6, M6, W6, 6);

fn opt<T, X>(x: Option<X>, f: impl Fn(X) -> Val<T>) -> Val<T> {
    match x {
        Some(v) => f(v),
        Option::None => Val::None,
    }
}

/// operations available for every scalar type
pub fn exec_num<T: Scal>(op: &str, a: &[Val<T>]) -> R<T> {
    use Val::*;
    for f in [n2::<T>, n3::<T>, n4::<T>, n5::<T>, n6::<T>] {
        if let Some(r) = f(op, a) {
            return Some(r);
        }
    }
    Some(match (op, a) {
        ("upper", [M3(x)]) => A(x.get_upper_triagular().to_vec()),
        ("upper", [M4(x)]) => A(x.get_upper_triagular().to_vec()),
        ("upper", [M5(x)]) => A(x.get_upper_triagular().to_vec()),
        ("upper", [M6(x)]) => A(x.get_upper_triangular().to_vec()),
        ("lower", [M3(x)]) => A(x.get_lower_triangular().to_vec()),
        ("lower", [M4(x)]) => A(x.get_lower_triangular().to_vec()),
        ("lower", [M5(x)]) => A(x.get_lower_triangular().to_vec()),
        ("lower", [M6(x)]) => A(x.get_lower_triangular().to_vec()),
        ("submatrix", [M4(x), U(i), U(j)]) => M3(x.get_submatrix((*i, *j))),
        ("copyq", [M6(x), M3(y), U(q)]) => {
            let mut r = *x;
            r.copy_elements_from(y, *q);
            M6(r)
        }
        ("trycopyq", [M6(x), M3(y), U(q)]) => {
            let mut r = *x;
            let e = refused(|| r.copy_elements_from(y, *q));
            Tup(vec![B(e), M6(r)])
        }
        ("ctor_args", [A(v), U(2)]) => M2(M22::new_from(v[0], v[1], v[2], v[3])),
        ("cross", [W3(x), W3(y)]) => W3(x.cross(*y)),
        ("axes", [W3(_)]) => {
            let mut r = V3::<T>::x_axis().to_vec();
            r.extend(V3::<T>::y_axis().iter());
            r.extend(V3::<T>::z_axis().iter());
            A(r)
        }
        // truth values written as 0 / 1
        ("bitand4", [A(x), A(y)]) => {
            let f = |v: &Vec<T>| V4::new_from(!v[0].is_zero(), !v[1].is_zero(), !v[2].is_zero(), !v[3].is_zero());
            let r = f(x) & f(y);
            A(r.iter().map(|b| if *b { T::one() } else { T::zero() }).collect())
        }
        ("consts", [U(n)]) => {
            let c: Vec<f32> = match n {
                2 => [&V2_ZEROS[..], &vector2::X_AXIS[..], &vector2::Y_AXIS[..], &matrix2x2::M22_ZEROS.as_vec()[..], &matrix2x2::M22_IDENT.as_vec()[..]].concat(),
                3 => [&V3_ZEROS[..], &X_AXIS[..], &Y_AXIS[..], &Z_AXIS[..]].concat(),
                4 => V4_ZEROS.to_vec(),
                5 => V5_ZEROS.to_vec(),
                _ => V6_ZEROS.to_vec(),
            };
            A(c.iter().map(|x| T::of(*x as f64).unwrap()).collect())
        }
        ("sl_dot", [A(x), A(y)]) => S(sl::dot(x, y)),
        ("sl_norm_inf", [A(x)]) => S(sl::norm_inf(x)),
        ("sl_norm_l", [A(x)]) => S(sl::norm_l(x)),
        ("sl_max_min", [A(x)]) => {
            let r = sl::find_max_min(x);
            Tup(vec![S(r.max.0), U(r.max.1), S(r.min.0), U(r.min.1)])
        }
        // ---- quaternions
        ("add", [Q(x), Q(y)]) => Q(*x + *y),
        ("sub", [Q(x), Q(y)]) => Q(*x - *y),
        ("eq", [Q(x), Q(y)]) => B(*x == *y),
        ("eq", [D(x), D(y)]) => B(*x == *y),
        ("neg", [Q(x)]) => Q(-*x),
        ("mul", [Q(x), Q(y)]) => Q(*x * *y),
        ("muls", [Q(x), S(s)]) => Q(*x * *s),
        ("divs", [Q(x), S(s)]) => Q(*x / *s),
        ("mul", [Q(x), W3(v)]) => W3(*x * *v),
        ("conj", [Q(x)]) => Q(x.conj()),
        ("dot", [Q(x), Q(y)]) => S(x.dot(*y)),
        ("abs2", [Q(x)]) => S(x.abs2()),
        ("qreal", [Q(x)]) => S(x.real()),
        ("qimag", [Q(x)]) => W3(x.imag()),
        ("zero", [Q(_)]) => Q(Quaternion::zero()),
        ("zero_t", [Q(_)]) => Q(<Quaternion<T> as Zero>::zero()),
        ("one", [Q(_)]) => Q(Quaternion::one()),
        ("one_t", [Q(_)]) => Q(<Quaternion<T> as One>::one()),
        ("is_zero", [Q(x)]) => B(x.is_zero()),
        ("is_one", [Q(x)]) => B(One::is_one(x)),
        ("q_new", [S(s), W3(v)]) => Q(Quaternion::new(*s, *v)),
        ("q_new_from", [S(s), S(x), S(y), S(z)]) => Q(Quaternion::new_from(*s, *x, *y, *z)),
        ("q_new_real", [S(s)]) => Q(Quaternion::new_real(*s)),
        ("q_new_imag", [W3(v)]) => Q(Quaternion::new_imag(v)),
        ("q_from_vec", [W4(v)]) => Q(Quaternion::new_from_vec(v)),
        ("q_from_arr", [W4(v)]) => Q(Quaternion::from([v[0], v[1], v[2], v[3]])),
        ("to_rotation", [Q(x)]) => M3(x.to_rotation()),
        // ---- dual quaternions
        ("add", [D(x), D(y)]) => D(*x + *y),
        ("sub", [D(x), D(y)]) => D(*x - *y),
        ("neg", [D(x)]) => D(-*x),
        ("mul", [D(x), D(y)]) => D(*x * *y),
        ("muls", [D(x), S(s)]) => D(*x * *s),
        ("conj", [D(x)]) => D(x.conj()),
        ("conj_dual", [D(x)]) => D(x.conj_as_dual()),
        ("conj_comb", [D(x)]) => D(x.conj_combined()),
        ("dnorm", [D(x)]) => D(x.norm()),
        ("dreal", [D(x)]) => Q(x.real()),
        ("ddual", [D(x)]) => Q(x.dual()),
        ("zero", [D(_)]) => D(DualQuaternion::zero()),
        ("zero_t", [D(_)]) => D(<DualQuaternion<T> as Zero>::zero()),
        ("one", [D(_)]) => D(DualQuaternion::one()),
        ("one_t", [D(_)]) => D(<DualQuaternion<T> as One>::one()),
        ("is_zero", [D(x)]) => B(x.is_zero()),
        ("is_one", [D(x)]) => B(One::is_one(x)),
        ("d_new", [Q(x), Q(y)]) => D(DualQuaternion::new(*x, *y)),
        ("d_from_vecs", [W4(x), W4(y)]) => D(DualQuaternion::new_from_vecs(x, y)),
        ("d_from_rotation", [Q(x)]) => D(DualQuaternion::new_from_rotation(x)),
        ("d_from_point", [W3(x)]) => D(DualQuaternion::new_from_point(x)),
        ("d_to_rt", [D(x)]) => {
            let (r, t) = x.to_rotation_translation();
            Tup(vec![M3(r), W3(t)])
        }
        ("d_to_qt", [D(x)]) => {
            let (r, t) = x.to_quaternion_translation();
            Tup(vec![Q(r), W3(t)])
        }
        ("d_translation", [D(x)]) => W3(x.get_translation()),
        ("transform_point", [D(x), W3(p)]) => W3(x.transform_point(p)),
        ("id", [x]) => x.clone(),
        // ---- text
        ("show", [M2(x)]) => Str(format!("{}", x)),
        ("show", [M3(x)]) => Str(format!("{}", x)),
        ("show", [M4(x)]) => Str(format!("{}", x)),
        ("show", [M5(x)]) => Str(format!("{}", x)),
        ("show", [M6(x)]) => Str(format!("{}", x)),
        ("show", [W2(x)]) => Str(format!("{}", x)),
        ("show", [W3(x)]) => Str(format!("{}", x)),
        ("show", [W4(x)]) => Str(format!("{}", x)),
        ("show", [W5(x)]) => Str(format!("{}", x)),
        ("show", [W6(x)]) => Str(format!("{}", x)),
        ("show", [Q(x)]) => Str(format!("{}", x)),
        ("show", [D(x)]) => Str(format!("{}", x)),
        _ => return Option::None,
    })
}

fn seq(s: &str) -> Option<tr::EulerSeq> {
    use tr::EulerSeq::*;
    Some(match s {
        "XYX" => XYX,
        "XYZ" => XYZ,
        "XZX" => XZX,
        "XZY" => XZY,
        "YXY" => YXY,
        "YXZ" => YXZ,
        "YZX" => YZX,
        "YZY" => YZY,
        "ZXY" => ZXY,
        "ZXZ" => ZXZ,
        _ => return None,
    })
}

fn tup3<T>(x: (T, T, T)) -> Val<T> {
    Val::Tup(vec![Val::S(x.0), Val::S(x.1), Val::S(x.2)])
}

/// operations that need a floating point scalar
pub fn exec_flt<T: Scal + Float + FloatConst>(op: &str, a: &[Val<T>]) -> R<T> {
    use Val::*;
    for f in [f2::<T>, f3::<T>, f4::<T>, f5::<T>, f6::<T>] {
        if let Some(r) = f(op, a) {
            return Some(r);
        }
    }
    Some(match (op, a) {
        ("sl_norm2", [A(x)]) => S(sl::norm2(x)),
        ("sl_normalize", [A(x)]) => {
            let mut y = x.clone();
            sl::normalize(&mut y);
            A(y)
        }
        ("sl_check", [A(x), S(tol)]) => B(sl::check_elements(x, *tol)),
        ("sl_project", [A(x), A(y)]) => S(sl::project_x_over_y(x, y)),
        ("real_eigenvals", [M2(x)]) => opt(x.real_eigenvals(), W2),
        // ---- quaternions
        ("norm2", [Q(x)]) => S(x.norm2()),
        ("normalize", [Q(x)]) => opt(x.normalize(), Q),
        ("normalize_q", [Q(x)]) => Q(x.normalize_q()),
        ("argq", [Q(x)]) => Q(x.argq()),
        ("abs_imag", [Q(x)]) => S(x.abs_imag()),
        ("inverse", [Q(x)]) => opt(x.inverse(), Q),
        ("div", [Q(x), Q(y)]) => Q(*x / *y),
        ("from_rotation", [M3(m)]) => Q(Quaternion::from_rotation(m)),
        ("rotation", [S(t), W3(v)]) => Q(Quaternion::rotation(*t, v)),
        ("rotation_ne", [W3(v)]) => Q(Quaternion::rotation_norm_encoded(v)),
        ("from_euler", [S(x), S(y), S(z)]) => Q(Quaternion::from_euler_angles(*x, *y, *z)),
        ("to_euler", [Q(x)]) => tup3(x.to_euler_angles()),
        ("get_angle", [Q(x)]) => S(x.get_angle()),
        ("get_axis", [Q(x)]) => opt(x.get_axis(), W3),
        ("axis_angle", [Q(x)]) => {
            let (v, t) = x.axis_angle();
            Tup(vec![opt(v, W3), S(t)])
        }
        ("exp", [Q(x)]) => Q(x.exp()),
        ("ln", [Q(x)]) => Q(x.ln()),
        ("sqrt", [Q(x)]) => Q(x.sqrt()),
        ("pow", [Q(x), Q(y)]) => Q(x.pow(*y)),
        ("sin", [Q(x)]) => Q(x.sin()),
        ("cos", [Q(x)]) => Q(x.cos()),
        ("slerp", [Q(x), Q(y), S(t)]) => Q(Quaternion::slerp(*x, *y, *t)),
        ("derivative", [Q(x), W3(w)]) => Q(x.derivative(w)),
        // ---- transformations
        ("rot2", [S(t)]) => M2(tr::rot2(*t)),
        ("rotx", [S(t)]) => M3(tr::rotx(*t)),
        ("roty", [S(t)]) => M3(tr::roty(*t)),
        ("rotz", [S(t)]) => M3(tr::rotz(*t)),
        ("euler_to_rotation", [S(x), S(y), S(z), Str(s)]) => {
            M3(tr::euler_to_rotation(*x, *y, *z, seq(s)))
        }
        ("rotation_to_euler", [M3(r)]) => tup3(tr::rotation_to_euler(r)),
        // extract the angles, rebuild the rotation with the default sequence
        ("euler_rebuild", [M3(r)]) => {
            let (x, y, z) = tr::rotation_to_euler(r);
            M3(tr::euler_to_rotation(x, y, z, Option::None))
        }
        ("euler_rebuild", [Q(q)]) => {
            let (x, y, z) = q.to_euler_angles();
            Q(Quaternion::from_euler_angles(x, y, z))
        }
        ("h_from_rotation", [M3(r), W3(p)]) => M4(tr::homogeneous_from_rotation(r, p)),
        ("h_from_quaternion", [Q(r), W3(p)]) => M4(tr::homogeneous_from_quaternion(r, p)),
        ("se3_from_parts", [M3(r), W3(p)]) => M4(tr::se3_from_parts(r, p)),
        ("se3_get_parts", [M4(m)]) => {
            let (r, p) = tr::se3_get_parts(m);
            Tup(vec![M3(r), W3(p)])
        }
        ("get_parts", [M4(m)]) => {
            let (r, p) = tr::get_parts(m);
            Tup(vec![Q(r), W3(p)])
        }
        ("get_parts_raw", [M4(m)]) => {
            let (r, p) = tr::get_parts_raw(m);
            Tup(vec![M3(r), W3(p)])
        }
        ("h_inverse", [M4(m)]) => M4(tr::homogeneous_inverse(m)),
        ("h_inverse_transform", [M4(m), W3(p)]) => W3(tr::homogeneous_inverse_transform(m, p)),
        ("skew", [W3(v)]) => M3(tr::skew_from_vec(v)),
        ("vex", [M3(m)]) => W3(tr::skew_to_vec(m)),
        ("skew2", [S(x)]) => M2(tr::skew_scalar(*x)),
        ("vex2", [M2(m)]) => S(tr::vex_m22(m)),
        ("ksi", [S(t), S(x), S(y)]) => M3(tr::ksi(*t, *x, *y)),
        ("skew_aug", [W3(v)]) => M3(tr::skew_from_vec_aug(*v)),
        ("skew_v6", [W6(v)]) => M4(tr::skew_v6(*v)),
        ("exp_axis_angle", [W3(v)]) => {
            let (w, t) = tr::axis_angle(v);
            Tup(vec![W3(w), S(t)])
        }
        ("translation_2d", [S(x), S(y)]) => M3(tr::translation_2d(*x, *y)),
        ("translation_3d", [S(x), S(y), S(z)]) => M4(tr::translation_3d(*x, *y, *z)),
        ("rotation_from_axis_angle", [W3(w), S(t)]) => M3(tr::rotation_from_axis_angle(w, *t)),
        ("rotation_inverse", [M3(m)]) => M3(tr::rotation_inverse(m)),
        ("mexp", [M3(m)]) => M3(tr::matrix_exponential(m)),
        ("mlog", [M3(m)]) => M3(tr::matrix_log(m)),
        ("mexp6", [M4(m)]) => M4(tr::matrix_exponential6(m)),
        ("mlog6", [M4(m)]) => M4(tr::matrix_log6(m)),
        ("mexplog", [M3(m)]) => M3(tr::matrix_exponential(&tr::matrix_log(m))),
        ("mexplog6", [M4(m)]) => M4(tr::matrix_exponential6(&tr::matrix_log6(m))),
        ("twist_to_se3", [W6(v)]) => M4(tr::twist_to_se3(v)),
        ("se3_to_twist", [M4(m)]) => W6(tr::se3_to_twist(m)),
        ("adjoint", [M4(m)]) => M6(tr::adjoint(m)),
        ("screw_to_axis", [W3(q), W3(s), S(h)]) => W6(tr::screw_to_axis(q, s, *h)),
        ("axis_angle6", [W6(v)]) => {
            let (w, t) = tr::axis_angle6(v);
            Tup(vec![W6(w), S(t)])
        }
        ("distance_to_manifold", [M3(m)]) => S(tr::distance_to_manifold(m)),
        // ---- comparisons
        ("nearly_equal", [S(x), S(y), S(e)]) => B(ut::nearly_equal(*x, *y, *e)),
        ("nearly_zero", [S(x)]) => B(ut::nearly_zero(*x)),
        ("compare_vecs", [A(x), A(y), S(e)]) => B(ut::compare_vecs(x, y, *e)),
        ("compare_floats", [S(x), S(y), S(e)]) => B(ut::compare_floats(*x, *y, *e)),
        ("compare_dq", [D(x), D(y), S(e)]) => B(ut::compare_dual_quaternions(*x, *y, *e)),
        ("is_rotation", [M3(m)]) => B(ut::is_rotation(*m)),
        ("is_rotation_h", [M4(m)]) => B(ut::is_rotation_h(*m)),
        // ---- dual quaternions
        ("div", [D(x), D(y)]) => D(*x / *y),
        ("inverse", [D(x)]) => D(x.inverse()),
        ("d_to_h", [D(x)]) => M4(x.to_homogeneous()),
        ("screw_params", [D(x)]) => {
            let (l, m, t, d) = x.get_screw_parameters();
            Tup(vec![W3(l), W3(m), S(t), S(d)])
        }
        ("d_from_screw", [W3(l), W3(m), S(t), S(d)]) => {
            D(DualQuaternion::new_from_screw_parameters(l, m, *t, *d))
        }
        // the screw parameters, and the dual quaternion rebuilt from them
        ("screw_rebuild", [D(x)]) => {
            let (l, m, t, d) = x.get_screw_parameters();
            D(DualQuaternion::new_from_screw_parameters(&l, &m, t, d))
        }
        ("pow", [D(x), S(e)]) => D(x.pow(*e)),
        ("screw_lerp", [D(x), D(y), S(e)]) => D(DualQuaternion::screw_lerp(x, y, *e)),
        ("log", [D(x)]) => opt(x.log(), D),
        ("d_from_array", [A(v)]) => {
            D(DualQuaternion::new_from_array([v[0], v[1], v[2], v[3], v[4], v[5], v[6]]))
        }
        ("d_from_translation", [W3(t)]) => D(DualQuaternion::new_from_translation(t)),
        ("d_from_rt", [Q(q), W3(t)]) => D(DualQuaternion::new_from_rot_trans(q, t)),
        ("is_normalized", [D(x)]) => B(x.is_normalized()),
        ("normalize", [D(x)]) => opt(x.normalize(), D),
        ("d_from_h", [M4(m)]) => D(DualQuaternion::new_from_homogeneous(m)),
        ("d_from_rotation_matrix", [M3(m)]) => D(DualQuaternion::new_from_rotation_matrix(m)),
        _ => return Option::None,
    })
}

