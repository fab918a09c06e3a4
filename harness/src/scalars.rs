//! Scalar types the library is instantiated with. Apart from the primitive
//! types they are all implemented here, independently of the library.
use crate::json::J;
use magnesia::algebra::{Conj, Field, Ring};
use magnesia::functions::{Abs, Sqrt};
use std::collections::BTreeMap;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

/// A scalar that can be exchanged with the specification.
pub trait Sc: Clone + PartialEq + 'static {
    fn from_j(j: &J) -> Self;
    fn to_j(&self) -> J;
}

macro_rules! sc_int {
    ($($t:ty),*) => { $(
        impl Sc for $t {
            fn from_j(j: &J) -> Self { <$t>::try_from(j.int()).expect("harness: literal range") }
            fn to_j(&self) -> J { J::from_int(*self as i128) }
        }
    )* };
}
sc_int!(i8, i16, i32, i64, i128, isize);
macro_rules! sc_float {
    ($($t:ty),*) => { $(
        impl Sc for $t {
            fn from_j(j: &J) -> Self {
                match j {
                    J::Arr(a) => (a[0].int() as f64 / a[1].int() as f64) as $t,
                    _ => j.int() as $t,
                }
            }
            fn to_j(&self) -> J { J::from_float(*self as f64) }
        }
    )* };
}
sc_float!(f32, f64);

/// `v` rounded to an integer, when it is one up to a relative error `tol`.
pub fn snap(v: f64, tol: f64) -> J {
    snap_abs(v, tol * v.abs().max(1.0))
}
/// `v` rounded to an integer, when it is one up to an absolute error.
pub fn snap_abs(v: f64, err: f64) -> J {
    let r = v.round();
    if v.is_finite() && (v - r).abs() <= err.min(0.2) {
        J::from_float(r)
    } else {
        J::Int(crate::json::OUT_OF_RANGE)
    }
}
pub const TOL64: f64 = 1e-9;
pub const TOL32: f64 = 2e-4;

/// Derives every operator the library may ask for from
/// `add_r`, `sub_r`, `mul_r`, `neg_r`.
macro_rules! ring_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Add for $t { type Output = $t; fn add(self, o: $t) -> $t { self.add_r(&o) } }
        impl<'a, $($g)*> Add<&'a $t> for $t { type Output = $t; fn add(self, o: &'a $t) -> $t { self.add_r(o) } }
        impl<'a, 'b, $($g)*> Add<&'b $t> for &'a $t { type Output = $t; fn add(self, o: &'b $t) -> $t { self.add_r(o) } }
        impl<$($g)*> Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { self.sub_r(&o) } }
        impl<'a, $($g)*> Sub<&'a $t> for $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { self.sub_r(o) } }
        impl<'a, 'b, $($g)*> Sub<&'b $t> for &'a $t { type Output = $t; fn sub(self, o: &'b $t) -> $t { self.sub_r(o) } }
        impl<$($g)*> Mul for $t { type Output = $t; fn mul(self, o: $t) -> $t { self.mul_r(&o) } }
        impl<'a, 'b, $($g)*> Mul<&'b $t> for &'a $t { type Output = $t; fn mul(self, o: &'b $t) -> $t { self.mul_r(o) } }
        impl<'a, $($g)*> Add<$t> for &'a $t { type Output = $t; fn add(self, o: $t) -> $t { self.add_r(&o) } }
        impl<'a, $($g)*> Sub<$t> for &'a $t { type Output = $t; fn sub(self, o: $t) -> $t { self.sub_r(&o) } }
        impl<'a, $($g)*> Mul<&'a $t> for $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { self.mul_r(o) } }
        impl<'a, $($g)*> Mul<$t> for &'a $t { type Output = $t; fn mul(self, o: $t) -> $t { self.mul_r(&o) } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = self.mul_r(&o); } }
        impl<'a, $($g)*> MulAssign<&'a $t> for $t { fn mul_assign(&mut self, o: &'a $t) { *self = self.mul_r(o); } }
        impl<'a, $($g)*> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { self.neg_r() } }
        impl<$($g)*> Default for $t { fn default() -> $t { <$t>::from(0) } }
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = self.add_r(&o); } }
        impl<'a, $($g)*> AddAssign<&'a $t> for $t { fn add_assign(&mut self, o: &'a $t) { *self = self.add_r(o); } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = self.sub_r(&o); } }
        impl<'a, $($g)*> SubAssign<&'a $t> for $t { fn sub_assign(&mut self, o: &'a $t) { *self = self.sub_r(o); } }
        impl<$($g)*> Neg for $t { type Output = $t; fn neg(self) -> $t { self.neg_r() } }
        impl<$($g)*> Ring for $t {}
    };
}
macro_rules! field_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Div for $t { type Output = $t; fn div(self, o: $t) -> $t { self.div_r(&o) } }
        impl<'a, $($g)*> Div<&'a $t> for $t { type Output = $t; fn div(self, o: &'a $t) -> $t { self.div_r(o) } }
        impl<'a, 'b, $($g)*> Div<&'b $t> for &'a $t { type Output = $t; fn div(self, o: &'b $t) -> $t { self.div_r(o) } }
        impl<$($g)*> Field for $t {}
    };
}

// ------------------------------------------------------------ prime fields
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Gf<const P: i64>(pub i64);
impl<const P: i64> Gf<P> {
    fn add_r(&self, o: &Self) -> Self {
        Gf((self.0 + o.0).rem_euclid(P))
    }
    fn sub_r(&self, o: &Self) -> Self {
        Gf((self.0 - o.0).rem_euclid(P))
    }
    fn mul_r(&self, o: &Self) -> Self {
        Gf((self.0 * o.0).rem_euclid(P))
    }
    fn neg_r(&self) -> Self {
        Gf((-self.0).rem_euclid(P))
    }
    fn div_r(&self, o: &Self) -> Self {
        assert!(o.0 != 0, "division by zero");
        let inv = (1..P).find(|x| x * o.0 % P == 1).unwrap();
        Gf(self.0 * inv % P)
    }
}
impl<const P: i64> From<i8> for Gf<P> {
    fn from(i: i8) -> Self {
        Gf((i as i64).rem_euclid(P))
    }
}
ring_ops!([const P: i64] Gf<P>);
field_ops!([const P: i64] Gf<P>);
impl<const P: i64> Conj for Gf<P> {
    fn conj(self) -> Self {
        self
    }
}
impl<const P: i64> Sc for Gf<P> {
    fn from_j(j: &J) -> Self {
        Gf(j.int().rem_euclid(P))
    }
    fn to_j(&self) -> J {
        J::Int(self.0)
    }
}

// ------------------------------------------------------------ rationals
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
impl Rat {
    pub fn new(n: i128, d: i128) -> Self {
        assert!(d != 0, "division by zero");
        let g = gcd(n, d).max(1) * d.signum();
        Rat { n: n / g, d: d / g }
    }
    fn add_r(&self, o: &Self) -> Self {
        Rat::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
    fn sub_r(&self, o: &Self) -> Self {
        Rat::new(self.n * o.d - o.n * self.d, self.d * o.d)
    }
    fn mul_r(&self, o: &Self) -> Self {
        Rat::new(self.n * o.n, self.d * o.d)
    }
    fn neg_r(&self) -> Self {
        Rat::new(-self.n, self.d)
    }
    fn div_r(&self, o: &Self) -> Self {
        Rat::new(self.n * o.d, self.d * o.n)
    }
}
impl From<i8> for Rat {
    fn from(i: i8) -> Self {
        Rat::new(i as i128, 1)
    }
}
ring_ops!([] Rat);
field_ops!([] Rat);
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (self.n * o.d).partial_cmp(&(o.n * self.d))
    }
}
impl Conj for Rat {
    fn conj(self) -> Self {
        self
    }
}
impl Abs for Rat {
    type Output = Rat;
    fn abs(self) -> Rat {
        Rat::new(self.n.abs(), self.d)
    }
}
impl Abs for &Rat {
    type Output = Rat;
    fn abs(self) -> Rat {
        Rat::new(self.n.abs(), self.d)
    }
}
fn isqrt(n: i128) -> i128 {
    if n < 0 {
        return 0;
    }
    let mut r = (n as f64).sqrt() as i128;
    while r * r > n {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= n {
        r += 1;
    }
    r
}
/// The value `Rat`'s square root has outside the perfect squares: no
/// specification value equals it, nor anything computed from it.
pub const NO_ROOT: i128 = 1_000_003;
impl Sqrt for Rat {
    fn sqrt(&self) -> Self {
        let (a, b) = (isqrt(self.n), isqrt(self.d));
        if a * a == self.n && b * b == self.d {
            Rat::new(a, b)
        } else {
            Rat::new(NO_ROOT, 1)
        }
    }
}
impl Sc for Rat {
    fn from_j(j: &J) -> Self {
        Rat::new(j.arr()[0].int() as i128, j.arr()[1].int() as i128)
    }
    fn to_j(&self) -> J {
        J::Arr(vec![J::from_int(self.n), J::from_int(self.d)])
    }
}

// ------------------------------------------------------------ free ring
/// Z<g1, g2, ...>: integer combinations of words; generator -i is the
/// conjugate of generator i.
#[derive(Clone, PartialEq, Eq)]
pub struct Free(pub BTreeMap<Vec<i64>, i64>);
impl Free {
    fn comb(&self, o: &Self, s: i64) -> Self {
        let mut m = self.0.clone();
        for (w, c) in &o.0 {
            *m.entry(w.clone()).or_insert(0) += s * c;
        }
        m.retain(|_, c| *c != 0);
        Free(m)
    }
    fn add_r(&self, o: &Self) -> Self {
        self.comb(o, 1)
    }
    fn sub_r(&self, o: &Self) -> Self {
        self.comb(o, -1)
    }
    fn mul_r(&self, o: &Self) -> Self {
        let mut m = BTreeMap::new();
        for (w, c) in &self.0 {
            for (v, d) in &o.0 {
                let mut x = w.clone();
                x.extend(v);
                *m.entry(x).or_insert(0) += c * d;
            }
        }
        m.retain(|_, c| *c != 0);
        Free(m)
    }
    fn neg_r(&self) -> Self {
        Free(BTreeMap::new()).comb(self, -1)
    }
}
impl From<i8> for Free {
    fn from(i: i8) -> Self {
        let mut m = BTreeMap::new();
        if i != 0 {
            m.insert(vec![], i as i64);
        }
        Free(m)
    }
}
ring_ops!([] Free);
impl Conj for Free {
    fn conj(self) -> Self {
        Free(
            self.0
                .into_iter()
                .map(|(w, c)| (w.into_iter().rev().map(|g| -g).collect(), c))
                .collect(),
        )
    }
}
impl Sc for Free {
    fn from_j(j: &J) -> Self {
        let mut f = Free(BTreeMap::new());
        for t in j.arr() {
            let w = t.arr()[1].arr().iter().map(|g| g.int()).collect();
            f = f.comb(&Free([(w, t.arr()[0].int())].into()), 1);
        }
        f
    }
    fn to_j(&self) -> J {
        J::Arr(
            self.0
                .iter()
                .map(|(w, c)| {
                    J::Arr(vec![
                        J::from_int(*c as i128),
                        J::Arr(w.iter().map(|g| J::Int(*g)).collect()),
                    ])
                })
                .collect(),
        )
    }
}

// ------------------------------------------------- 2x2 integer matrices
/// A small non-commutative ring with zero divisors and nilpotents.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct M2(pub [[i64; 2]; 2]);
impl M2 {
    fn zip(&self, o: &Self, f: impl Fn(i64, i64) -> i64) -> Self {
        let mut r = *self;
        for i in 0..2 {
            for j in 0..2 {
                r.0[i][j] = f(self.0[i][j], o.0[i][j]);
            }
        }
        r
    }
    fn add_r(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a + b)
    }
    fn sub_r(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a - b)
    }
    fn mul_r(&self, o: &Self) -> Self {
        let mut r = M2([[0; 2]; 2]);
        for i in 0..2 {
            for j in 0..2 {
                r.0[i][j] = self.0[i][0] * o.0[0][j] + self.0[i][1] * o.0[1][j];
            }
        }
        r
    }
    fn neg_r(&self) -> Self {
        self.zip(self, |a, _| -a)
    }
}
impl From<i8> for M2 {
    fn from(i: i8) -> Self {
        M2([[i as i64, 0], [0, i as i64]])
    }
}
ring_ops!([] M2);
impl Conj for M2 {
    fn conj(self) -> Self {
        self
    }
}
impl Sc for M2 {
    fn from_j(j: &J) -> Self {
        let e = |i: usize, k: usize| j.arr()[i].arr()[k].int();
        M2([[e(0, 0), e(0, 1)], [e(1, 0), e(1, 1)]])
    }
    fn to_j(&self) -> J {
        J::Arr(
            self.0
                .iter()
                .map(|r| J::Arr(r.iter().map(|x| J::from_int(*x as i128)).collect()))
                .collect(),
        )
    }
}

// ------------------------------------------------- Gaussian integers
/// The harness's own complex integers (kind cplx,int), with conjugation.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Gi(pub i64, pub i64);
impl Gi {
    fn add_r(&self, o: &Self) -> Self {
        Gi(self.0 + o.0, self.1 + o.1)
    }
    fn sub_r(&self, o: &Self) -> Self {
        Gi(self.0 - o.0, self.1 - o.1)
    }
    fn mul_r(&self, o: &Self) -> Self {
        Gi(
            self.0 * o.0 - self.1 * o.1,
            self.0 * o.1 + self.1 * o.0,
        )
    }
    fn neg_r(&self) -> Self {
        Gi(-self.0, -self.1)
    }
}
impl From<i8> for Gi {
    fn from(i: i8) -> Self {
        Gi(i as i64, 0)
    }
}
ring_ops!([] Gi);
impl Conj for Gi {
    fn conj(self) -> Self {
        Gi(self.0, -self.1)
    }
}
impl Sc for Gi {
    fn from_j(j: &J) -> Self {
        Gi(j.arr()[0].int(), j.arr()[1].int())
    }
    fn to_j(&self) -> J {
        J::Arr(vec![
            J::from_int(self.0 as i128),
            J::from_int(self.1 as i128),
        ])
    }
}

// ------------------------------------------------- adjoined indeterminate
/// R[x] with a central indeterminate x: lets polynomials over R be observed
/// exactly through their public evaluation at x.
#[derive(Clone, PartialEq)]
pub struct Rx<R>(pub Vec<R>);
impl<R: Sc + Ring> Rx<R> {
    fn norm(mut v: Vec<R>) -> Self {
        while v.last().is_some_and(|c| *c == R::zero()) {
            v.pop();
        }
        Rx(v)
    }
    pub fn indet() -> Self {
        Rx(vec![R::zero(), R::one()])
    }
    fn comb(&self, o: &Self, sub: bool) -> Self {
        let mut v = self.0.clone();
        while v.len() < o.0.len() {
            v.push(R::zero());
        }
        for (a, b) in v.iter_mut().zip(&o.0) {
            if sub {
                *a -= b;
            } else {
                *a += b;
            }
        }
        Self::norm(v)
    }
    fn add_r(&self, o: &Self) -> Self {
        self.comb(o, false)
    }
    fn sub_r(&self, o: &Self) -> Self {
        self.comb(o, true)
    }
    fn mul_r(&self, o: &Self) -> Self {
        if self.0.is_empty() || o.0.is_empty() {
            return Rx(vec![]);
        }
        let mut v = vec![R::zero(); self.0.len() + o.0.len() - 1];
        for (i, a) in self.0.iter().enumerate() {
            for (j, b) in o.0.iter().enumerate() {
                v[i + j] += &a.mul_refs(b);
            }
        }
        Self::norm(v)
    }
    fn neg_r(&self) -> Self {
        Rx(self.0.iter().map(|a| -a.clone()).collect())
    }
}
impl<R: Sc + Ring> From<i8> for Rx<R> {
    fn from(i: i8) -> Self {
        let mut s = R::zero();
        for _ in 0..i.unsigned_abs() {
            if i > 0 {
                s += &R::one();
            } else {
                s -= &R::one();
            }
        }
        Self::norm(vec![s])
    }
}
ring_ops!([R: Sc + Ring] Rx<R>);
/// As a scalar, an `Rx` stands for the constant it holds.
impl<R: Sc + Ring> Sc for Rx<R> {
    fn from_j(j: &J) -> Self {
        Self::norm(vec![R::from_j(j)])
    }
    fn to_j(&self) -> J {
        self.0.first().cloned().unwrap_or(R::zero()).to_j()
    }
}

// ------------------------------------------------- Debug output is JSON
macro_rules! debug_json {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let mut s = String::new();
                self.to_j().write(&mut s);
                f.write_str(&s)
            }
        }
    };
}
debug_json!([const P: i64] Gf<P>);
debug_json!([] Rat);
debug_json!([] Free);
debug_json!([] M2);
debug_json!([] Gi);
debug_json!([R: Sc + Ring] Rx<R>);

// ------------------------------------------------- the library's own complex
impl<T: Sc> Sc for magnesia::algebra::Complex<T> {
    fn from_j(j: &J) -> Self {
        Self { re: T::from_j(&j.arr()[0]), im: T::from_j(&j.arr()[1]) }
    }
    fn to_j(&self) -> J {
        J::Arr(vec![self.re.to_j(), self.im.to_j()])
    }
}

// ------------------------------------------------- formal quotients
/// Quotients of generators g/h are new generators: division as an
/// uninterpreted operation, for code that only ever divides.
impl Div for Free {
    type Output = Free;
    fn div(self, o: Free) -> Free {
        let one = |f: &Free| match f.0.iter().next() {
            Some((w, 1)) if f.0.len() == 1 && w.len() == 1 => w[0],
            _ => panic!("harness: quotient of non-generators"),
        };
        Free([(vec![100_000 + 1000 * one(&self) + one(&o)], 1)].into())
    }
}
impl Div for M2 {
    type Output = M2;
    fn div(self, _: M2) -> M2 {
        panic!("harness: quotient")
    }
}
impl Div for Gi {
    type Output = Gi;
    fn div(self, _: Gi) -> Gi {
        panic!("harness: quotient")
    }
}
impl<'a> Div<&'a Free> for &'a Free {
    type Output = Free;
    fn div(self, o: &'a Free) -> Free {
        self.clone() / o.clone()
    }
}
