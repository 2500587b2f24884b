//! Concrete values held by the replay machine, and the interpretation of the
//! specification's JSON values (literals and expectations) as numbers.
use num::{Num, Signed};
use serde_json::Value;
use static_math::*;
use std::fmt::{Debug, Display};

/// A scalar type the library is instantiated with.
pub trait Scal:
    Num + Copy + Signed + core::iter::Sum + PartialOrd + Debug + Display + Send + 'static
{
    const NAME: &'static str;
    fn of(x: f64) -> Result<Self, String>;
    fn to(self) -> f64;
    fn lmul(self, v: &Val<Self>) -> Option<Val<Self>>;
}

#[derive(Clone, Debug)]
pub enum Val<T> {
    M2(M22<T>),
    M3(M33<T>),
    M4(M44<T>),
    M5(M55<T>),
    M6(M66<T>),
    W2(V2<T>),
    W3(V3<T>),
    W4(V4<T>),
    W5(V5<T>),
    W6(V6<T>),
    Q(Quaternion<T>),
    D(DualQuaternion<T>),
    S(T),
    U(usize),
    B(bool),
    A(Vec<T>),
    Us(Vec<usize>),
    Tup(Vec<Val<T>>),
    Str(String),
    None,
    Err,
    Panic(String),
}

macro_rules! int_scal {
    ($t:ty, $n:expr) => {
        impl Scal for $t {
            const NAME: &'static str = $n;
            fn of(x: f64) -> Result<Self, String> {
                if x.fract() != 0.0 || x < <$t>::MIN as f64 || x > <$t>::MAX as f64 {
                    return Err(format!("literal {} is not representable as {}", x, $n));
                }
                Ok(x as $t)
            }
            fn to(self) -> f64 {
                self as f64
            }
            fn lmul(self, _: &Val<Self>) -> Option<Val<Self>> {
                None
            }
        }
    };
}
int_scal!(i32, "i32");
int_scal!(i64, "i64");

/// An unsigned scalar of 8 bits. (The harness demands signs; asking one of these to be negated is refused.)
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct U8(pub u8);
impl Display for U8 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Display::fmt(&self.0, f)
    }
}
macro_rules! u8_op {
    ($($t:ident, $f:ident);*) => { $(
        impl core::ops::$t for U8 {
            type Output = U8;
            fn $f(self, r: U8) -> U8 {
                U8(core::ops::$t::$f(self.0, r.0))
            }
        }
    )* };
}
u8_op!(Add, add; Sub, sub; Mul, mul; Div, div; Rem, rem);
impl core::ops::Neg for U8 {
    type Output = U8;
    fn neg(self) -> U8 {
        panic!("unsigned")
    }
}
impl num::Zero for U8 {
    fn zero() -> U8 {
        U8(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num::One for U8 {
    fn one() -> U8 {
        U8(1)
    }
}
impl Num for U8 {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<U8, ()> {
        Err(())
    }
}
impl Signed for U8 {
    fn abs(&self) -> U8 {
        panic!("unsigned")
    }
    fn abs_sub(&self, _: &U8) -> U8 {
        panic!("unsigned")
    }
    fn signum(&self) -> U8 {
        panic!("unsigned")
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        false
    }
}
impl core::iter::Sum for U8 {
    fn sum<I: Iterator<Item = U8>>(i: I) -> U8 {
        i.fold(U8(0), |a, b| a + b)
    }
}
impl Scal for U8 {
    const NAME: &'static str = "u8";
    fn of(x: f64) -> Result<Self, String> {
        if x.fract() != 0.0 || !(0.0..=255.0).contains(&x) {
            return Err(format!("literal {} is not representable as u8", x));
        }
        Ok(U8(x as u8))
    }
    fn to(self) -> f64 {
        self.0 as f64
    }
    fn lmul(self, _: &Val<Self>) -> Option<Val<Self>> {
        None
    }
}

impl Scal for f32 {
    const NAME: &'static str = "f32";
    fn of(x: f64) -> Result<Self, String> {
        Ok(x as f32)
    }
    fn to(self) -> f64 {
        self as f64
    }
    fn lmul(self, v: &Val<Self>) -> Option<Val<Self>> {
        Some(match v {
            Val::M2(m) => Val::M2(self * *m),
            Val::M3(m) => Val::M3(self * *m),
            Val::W2(m) => Val::W2(self * *m),
            Val::W3(m) => Val::W3(self * *m),
            Val::W4(m) => Val::W4(self * *m),
            Val::W5(m) => Val::W5(self * *m),
            Val::W6(m) => Val::W6(self * *m),
            _ => return None,
        })
    }
}
impl Scal for f64 {
    const NAME: &'static str = "f64";
    fn of(x: f64) -> Result<Self, String> {
        Ok(x)
    }
    fn to(self) -> f64 {
        self
    }
    fn lmul(self, v: &Val<Self>) -> Option<Val<Self>> {
        Some(match v {
            Val::M3(m) => Val::M3(self * *m),
            Val::W3(m) => Val::W3(self * *m),
            _ => return None,
        })
    }
}

/// Number expressions of the specification.
///   int | {"q":[p,q]} | {"rt":[c,p,q]} = c*sqrt(p/q) | {"pi":[p,q]} | {"at":[y,x]} = atan2
///   | {"p2":[k,e]} = k*2^e | {"sp":"inf"|"-inf"|"nan"} | {"o":op,"a":[..]}
pub fn num(v: &Value) -> Result<f64, String> {
    if let Some(x) = v.as_i64() {
        return Ok(x as f64);
    }
    if let Some(x) = v.as_f64() {
        return Ok(x);
    }
    let o = v.as_object().ok_or_else(|| format!("bad number {}", v))?;
    let arr = |k: &str| -> Result<Vec<f64>, String> {
        o[k].as_array()
            .ok_or_else(|| format!("bad number {}", v))?
            .iter()
            .map(num)
            .collect()
    };
    if o.contains_key("q") {
        let a = arr("q")?;
        return Ok(a[0] / a[1]);
    }
    if o.contains_key("rt") {
        let a = arr("rt")?;
        return Ok(a[0] * (a[1] / a[2]).sqrt());
    }
    if o.contains_key("pi") {
        let a = arr("pi")?;
        return Ok(a[0] * std::f64::consts::PI / a[1]);
    }
    if o.contains_key("at") {
        let a = arr("at")?;
        return Ok(a[0].atan2(a[1]));
    }
    if o.contains_key("p2") {
        let a = arr("p2")?;
        return Ok(a[0] * 2f64.powi(a[1] as i32));
    }
    if let Some(s) = o.get("sp") {
        return Ok(match s.as_str().unwrap_or("") {
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            _ => f64::NAN,
        });
    }
    if let Some(op) = o.get("o").and_then(|x| x.as_str()) {
        let a = arr("a")?;
        return Ok(match op {
            "+" => a.iter().sum(),
            "*" => a.iter().product(),
            "/" => a[0] / a[1],
            "-" => a[0] - a[1],
            "sqrt" => a[0].sqrt(),
            "sin" => a[0].sin(),
            "cos" => a[0].cos(),
            "sinh" => a[0].sinh(),
            "cosh" => a[0].cosh(),
            "exp" => a[0].exp(),
            "ln" => a[0].ln(),
            _ => return Err(format!("unknown operator {}", op)),
        });
    }
    Err(format!("bad number {}", v))
}

fn flat(v: &Value, out: &mut Vec<f64>) -> Result<(), String> {
    if let Some(a) = v.as_array() {
        for x in a {
            flat(x, out)?;
        }
        Ok(())
    } else {
        out.push(num(v)?);
        Ok(())
    }
}

fn geti(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}

/// Numeric content of an object value: entries / den / sqrt(rt), scaled by the unit.
pub fn content(v: &Value, unit: i64) -> Result<Vec<f64>, String> {
    let mut out = Vec::new();
    flat(&v["v"], &mut out)?;
    let den = geti(v, "den", 1) as f64;
    let rt = match v.get("rt") {
        Some(x) => num(x)?,
        None => 1.0,
    };
    let deg = geti(v, "deg", 0);
    let mut s = 1.0 / (den * rt.sqrt());
    if v.get("un").is_some() {
        // direction only: divide by the Euclidean norm (of the first four for dual quaternions)
        let k = if v["t"] == "d" { 4 } else { out.len() };
        let m = out.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        if m > 0.0 {
            let n2: f64 = out[..k].iter().map(|x| (x / m) * (x / m)).sum();
            s /= m * n2.sqrt();
        }
    }
    let f = 2f64.powi((unit * deg) as i32);
    for x in out.iter_mut() {
        let exact = den == 1.0 && rt == 1.0 && v.get("un").is_none();
        *x = if exact {
            *x * f
        } else if den != 1.0 && rt == 1.0 && v.get("un").is_none() {
            *x / den * f
        } else {
            *x * s * f
        };
    }
    Ok(out)
}

fn arr<T: Scal, const N: usize>(c: &[f64]) -> Result<[T; N], String> {
    if c.len() != N {
        return Err(format!("expected {} numbers, got {}", N, c.len()));
    }
    let mut r = [T::zero(); N];
    for i in 0..N {
        r[i] = T::of(c[i])?;
    }
    Ok(r)
}
fn arr2<T: Scal, const N: usize>(c: &[f64]) -> Result<[[T; N]; N], String> {
    if c.len() != N * N {
        return Err(format!("expected {} numbers, got {}", N * N, c.len()));
    }
    let mut r = [[T::zero(); N]; N];
    for i in 0..N {
        for j in 0..N {
            r[i][j] = T::of(c[i * N + j])?;
        }
    }
    Ok(r)
}

thread_local! {
    /// state of the pseudo-random choice of zeros that become negative zeros; 0: none do
    pub static SIGNS: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

/// Numeric content of an operand: a zero is a zero, whatever its sign.
fn operand(v: &Value, unit: i64) -> Result<Vec<f64>, String> {
    let mut c = content(v, unit)?;
    SIGNS.with(|z| {
        if z.get() != 0 {
            for x in c.iter_mut().filter(|x| **x == 0.0) {
                let s = z.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                z.set(s | 1);
                *x = if (s >> 40) & 1 == 0 { 0.0 } else { -0.0 };
            }
        }
    });
    Ok(c)
}

/// Build a concrete object from a literal of the specification.
pub fn literal<T: Scal>(v: &Value, unit: i64) -> Result<Val<T>, String> {
    let t = v["t"].as_str().ok_or_else(|| format!("untyped literal {}", v))?;
    Ok(match t {
        "m" => {
            let c = operand(v, unit)?;
            match v["v"].as_array().map(|a| a.len()).unwrap_or(0) {
                2 => Val::M2(M22::new(arr2(&c)?)),
                3 => Val::M3(M33::new(arr2(&c)?)),
                4 => Val::M4(M44::new(arr2(&c)?)),
                5 => Val::M5(M55::new(arr2(&c)?)),
                6 => Val::M6(M66::new(arr2(&c)?)),
                n => return Err(format!("bad matrix size {}", n)),
            }
        }
        "v" => {
            let c = operand(v, unit)?;
            match c.len() {
                2 => Val::W2(V2::new(arr(&c)?)),
                3 => Val::W3(V3::new(arr(&c)?)),
                4 => Val::W4(V4::new(arr(&c)?)),
                5 => Val::W5(V5::new(arr(&c)?)),
                6 => Val::W6(V6::new(arr(&c)?)),
                n => return Err(format!("bad vector size {}", n)),
            }
        }
        "q" => {
            let c = operand(v, unit)?;
            let a: [T; 4] = arr(&c)?;
            Val::Q(Quaternion::new_from(a[0], a[1], a[2], a[3]))
        }
        "d" => {
            let c = operand(v, unit)?;
            let a: [T; 8] = arr(&c)?;
            Val::D(DualQuaternion::new(
                Quaternion::new_from(a[0], a[1], a[2], a[3]),
                Quaternion::new_from(a[4], a[5], a[6], a[7]),
            ))
        }
        "s" => Val::S(T::of(operand(v, unit)?[0])?),
        "u" => Val::U(v["v"].as_u64().ok_or("bad index")? as usize),
        "a" => {
            let c = operand(v, unit)?;
            Val::A(c.iter().map(|x| T::of(*x)).collect::<Result<Vec<_>, _>>()?)
        }
        "tup" => Val::Tup(
            v["v"]
                .as_array()
                .ok_or("bad tuple")?
                .iter()
                .map(|x| literal(x, unit))
                .collect::<Result<Vec<_>, _>>()?,
        ),
        "str" => Val::Str(v["v"].as_str().unwrap_or("").to_string()),
        _ => return Err(format!("cannot build literal of type {}", t)),
    })
}

impl<T: Scal> Val<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Val::M2(_) | Val::M3(_) | Val::M4(_) | Val::M5(_) | Val::M6(_) => "m",
            Val::W2(_) | Val::W3(_) | Val::W4(_) | Val::W5(_) | Val::W6(_) => "v",
            Val::Q(_) => "q",
            Val::D(_) => "d",
            Val::S(_) => "s",
            Val::U(_) => "u",
            Val::B(_) => "b",
            Val::A(_) => "a",
            Val::Us(_) => "us",
            Val::Tup(_) => "tup",
            Val::Str(_) => "str",
            Val::None => "none",
            Val::Err => "err",
            Val::Panic(_) => "panic",
        }
    }
    pub fn nums(&self) -> Vec<f64> {
        fn m<T: Scal, const N: usize>(a: &[[T; N]; N]) -> Vec<f64> {
            a.iter().flatten().map(|x| x.to()).collect()
        }
        fn v<T: Scal>(a: &[T]) -> Vec<f64> {
            a.iter().map(|x| x.to()).collect()
        }
        fn q<T: Scal>(a: &Quaternion<T>) -> Vec<f64> {
            let i = a.imag();
            vec![a.real().to(), i[0].to(), i[1].to(), i[2].to()]
        }
        match self {
            Val::M2(x) => m(x),
            Val::M3(x) => m(x),
            Val::M4(x) => m(x),
            Val::M5(x) => m(x),
            Val::M6(x) => m(x),
            Val::W2(x) => v(&x[..]),
            Val::W3(x) => v(&x[..]),
            Val::W4(x) => v(&x[..]),
            Val::W5(x) => v(&x[..]),
            Val::W6(x) => v(&x[..]),
            Val::Q(x) => q(x),
            Val::D(x) => {
                let mut r = q(&x.real());
                r.extend(q(&x.dual()));
                r
            }
            Val::S(x) => vec![x.to()],
            Val::U(x) => vec![*x as f64],
            Val::A(x) => v(x),
            Val::Us(x) => x.iter().map(|a| *a as f64).collect(),
            _ => vec![],
        }
    }
    pub fn show(&self) -> String {
        match self {
            Val::Tup(x) => format!("({})", x.iter().map(|a| a.show()).collect::<Vec<_>>().join(", ")),
            Val::B(b) => format!("{}", b),
            Val::Str(s) => format!("{:?}", s),
            Val::None => "None".into(),
            Val::Err => "Err".into(),
            Val::Panic(s) => format!("panic({})", s),
            _ => format!("{}{:?}", self.kind(), self.nums()),
        }
    }
}

/// tolerance context of one comparison
#[derive(Clone, Copy)]
pub struct Tol {
    pub rel: f64,
    pub unit: i64,
}

fn close(got: &[f64], want: &[f64], tol: f64, floor: f64, sign: f64) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let scale = want.iter().fold(floor, |a, x| if x.is_finite() { a.max(x.abs()) } else { a });
    got.iter().zip(want).all(|(g, w)| {
        let w = sign * *w;
        if w.is_infinite() {
            *g == w
        } else if w.is_nan() {
            g.is_nan()
        } else {
            (g - w).abs() <= tol * scale
        }
    })
}

/// Is component i (of n) of an object of kind t translational? (dual part, last column, linear part ...)
fn translational(t: &str, n: usize, i: usize) -> bool {
    match (t, n) {
        ("d", _) => i >= 4,
        ("m", 16) => i % 4 == 3 && i < 12,
        ("m", 9) => i % 3 == 2 && i < 6,
        ("m", 36) => i >= 18 && i % 6 < 3,
        ("v", 6) => i >= 3,
        ("v", 4) => i < 3,
        _ => true,
    }
}

/// close, with the translational part measured in its own unit of length
fn close_tl(t: &str, got: &[f64], want: &[f64], tol: f64, fl: f64, tl: f64, sign: f64) -> bool {
    let part = |x: &[f64], b: bool| -> Vec<f64> { x.iter().enumerate().filter(|(i, _)| translational(t, x.len(), *i) == b).map(|(_, y)| *y).collect() };
    got.len() == want.len()
        && close(&part(got, false), &part(want, false), tol, fl, sign)
        && close(&part(got, true), &part(want, true), tol, tl, sign)
}

/// Does the concrete value satisfy the expectation? (Ok(Some(id)): only through known finding id)
pub fn matches<T: Scal>(got: &Val<T>, exp: &Value, tol: Tol) -> Result<(bool, Option<String>), String> {
    let t = exp["t"].as_str().ok_or_else(|| format!("untyped expectation {}", exp))?;
    let yes = |b: bool| Ok((b, None));
    match t {
        "any" => {
            for e in exp["v"].as_array().ok_or("bad any")? {
                let (ok, kf) = matches(got, e, tol)?;
                if ok {
                    return Ok((true, kf));
                }
            }
            yes(false)
        }
        // an outcome accepted only because it is a listed known finding
        "kf" => {
            let (ok, _) = matches(got, &exp["v"], tol)?;
            Ok((ok, Some(exp["id"].as_str().unwrap_or("?").to_string())))
        }
        "skip" => yes(true),
        "pm" => {
            let e = &exp["v"];
            let c = content(e, tol.unit)?;
            if got.kind() != e["t"].as_str().unwrap_or("") {
                return yes(false);
            }
            let fl = 2f64.powi((tol.unit * geti(e, "deg", 0)) as i32) * geti(e, "fl", 1) as f64;
            let g = got.nums();
            if e.get("cw").is_some() {
                if matches(got, e, tol)?.0 {
                    return yes(true);
                }
                let mut n = e.clone();
                n["v"] = negated(&e["v"]);
                return matches(got, &n, tol);
            }
            if let Some(x) = e.get("tl") {
                let tl = num(x)?;
                let k = got.kind();
                return yes(close_tl(k, &g, &c, tol.rel, fl, tl, 1.0) || close_tl(k, &g, &c, tol.rel, fl, tl, -1.0));
            }
            yes(close(&g, &c, tol.rel, fl, 1.0) || close(&g, &c, tol.rel, fl, -1.0))
        }
        "tup" => {
            let es = exp["v"].as_array().ok_or("bad tuple")?;
            if let Val::Tup(gs) = got {
                if gs.len() != es.len() {
                    return yes(false);
                }
                let mut kfs = None;
                for (g, e) in gs.iter().zip(es) {
                    let (ok, kf) = matches(g, e, tol)?;
                    if !ok {
                        return yes(false);
                    }
                    if kf.is_some() {
                        kfs = kf;
                    }
                }
                Ok((true, kfs))
            } else {
                yes(false)
            }
        }
        "none" | "err" | "panic" => yes(got.kind() == t),
        "b" => yes(matches!(got, Val::B(b) if Some(*b) == exp["v"].as_bool())),
        // rendered text: numbers per line
        "txt" => {
            if let Val::Str(s) = got {
                yes(text_matches(s, &exp["v"], !T::NAME.starts_with('f'))?)
            } else {
                yes(false)
            }
        }
        "u" | "us" => {
            let mut c = Vec::new();
            flat(&exp["v"], &mut c)?;
            yes(got.kind() == t && got.nums() == c)
        }
        _ => {
            if got.kind() != t {
                return yes(false);
            }
            let c = content(exp, tol.unit)?;
            let g = got.nums();
            let fl = 2f64.powi((tol.unit * geti(exp, "deg", 0)) as i32) * geti(exp, "fl", 1) as f64;
            // small components count: each is compared relative to max(its size, cw), plus rounding of the whole
            if let Some(x) = exp.get("cw") {
                let f = num(x)?;
                let eps = if T::NAME == "f32" { f32::EPSILON as f64 } else { f64::EPSILON };
                let mut sc = c.iter().fold(0.0f64, |a, x| a.max(x.abs()));
                if let Some(x) = exp.get("sc") {
                    sc = sc.max(num(x)?);
                }
                if exp.get("pc").is_some() {
                    sc = 0.0;
                }
                return yes(g.len() == c.len()
                    && g.iter().zip(&c).all(|(g, w)| (g - w).abs() <= tol.rel * w.abs().max(f) + 64.0 * eps * sc));
            }
            if let Some(x) = exp.get("tl") {
                return yes(close_tl(t, &g, &c, tol.rel, fl, num(x)?, 1.0));
            }
            if t == "d" {
                return yes(close(&g[..4], &c[..4], tol.rel, fl, 1.0) && close(&g[4..], &c[4..], tol.rel, fl, 1.0));
            }
            yes(close(&g, &c, tol.rel, fl, 1.0))
        }
    }
}

fn negated(v: &Value) -> Value {
    match v.as_array() {
        Some(a) => Value::Array(a.iter().map(negated).collect()),
        None => serde_json::json!({"o": "*", "a": [-1, v]}),
    }
}

/// expectation: list of lines, each a list of hundredths (or special values); integer scalars print no decimals
fn text_matches(s: &str, exp: &Value, int: bool) -> Result<bool, String> {
    let mut got: Vec<Vec<String>> = Vec::new();
    for line in s.lines() {
        let mut row = Vec::new();
        for tok in line.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-')) {
            if tok.is_empty() || (tok.starts_with(|c: char| c.is_ascii_alphabetic()) && tok != "inf" && tok != "NaN") {
                continue; // a label
            }
            let x: f64 = match tok.parse() {
                Ok(x) => x,
                Err(_) => return Ok(false),
            };
            if !x.is_finite() {
                row.push(tok.to_lowercase());
                continue;
            }
            // "rounded to two decimals"
            let two = tok.contains('.') && tok.len() - tok.find('.').unwrap() == 3;
            if !two && !(int && !tok.contains('.')) {
                return Ok(false);
            }
            row.push(((x * 100.0).round() as i64).to_string());
        }
        if !row.is_empty() {
            got.push(row);
        }
    }
    let mut want: Vec<Vec<String>> = Vec::new();
    for l in exp.as_array().ok_or("bad text expectation")? {
        want.push(
            l.as_array()
                .ok_or("bad text expectation")?
                .iter()
                .map(|x| match (x.as_i64(), x.get("sp").and_then(|x| x.as_str())) {
                    (Some(k), _) => Ok(k.to_string()),
                    (_, Some(x)) => Ok(x.to_string()),
                    _ => Err("bad text expectation".to_string()),
                })
                .collect::<Result<Vec<_>, _>>()?,
        );
    }
    Ok(got == want)
}
