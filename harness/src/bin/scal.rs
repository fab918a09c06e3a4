//! Suite `scal`: zero, one, conjugation, by-reference products and quotients
//! of the primitive types and of user types.
use conform::*;
use magnesia::algebra::{Conj, DivRefs, Field, MulRefs, One, Ring, Zero};
use std::ops::{AddAssign, Div, Mul, SubAssign};

/// A value that can be exchanged as literal.
trait Val: Clone + 'static {
    fn lit(j: &J) -> Self;
    fn see(&self) -> J;
}
/// Primitive types: the bytes, lowest first.
macro_rules! bytes {
    ($($t:ty),*) => { $(
        impl Val for $t {
            fn lit(j: &J) -> Self {
                let b: Vec<u8> = j.arr().iter().map(|x| x.int() as u8).collect();
                <$t>::from_le_bytes(b.try_into().expect("harness: width"))
            }
            fn see(&self) -> J {
                J::Arr(self.to_le_bytes().iter().map(|b| J::Int(*b as i64)).collect())
            }
        }
    )* };
}
bytes!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
macro_rules! user {
    ($($t:ty),*) => { $(
        impl Val for $t {
            fn lit(j: &J) -> Self { Sc::from_j(j) }
            fn see(&self) -> J { Sc::to_j(self) }
        }
    )* };
}
user!(Gf<2>, Gf<3>, Gf<7>, Rat, Free, M2, Gi);

/// Generic code that knows nothing but the traits of the library.
fn zero<T: Zero>() -> T {
    T::zero()
}
fn one<T: One>() -> T {
    T::one()
}
fn conj<T: Conj>(x: T) -> T {
    x.conj()
}
fn times<T: MulRefs>(a: &T, b: &T) -> T {
    a.mul_refs(b)
}
fn over<T: DivRefs>(a: &T, b: &T) -> T {
    a.div_refs(b)
}
/// x + 0, 0 + x, x - 0, x * 1, 1 * x in terms of the `Ring` interface.
fn neutral<T: Ring>(x: &T) -> Vec<T> {
    let mut v = vec![x.clone(), T::zero(), x.clone(), x.mul_refs(&T::one()), T::one().mul_refs(x)];
    v[0] += &T::zero();
    v[1] += x;
    v[2] -= &T::zero();
    v
}
fn neutral_field<T: Field>(x: &T) -> Vec<T> {
    let mut v = neutral(x);
    v.push(x.div_refs(&T::one()));
    v
}
/// For types that are no rings: only what zero and one promise.
fn neutral_parts<T: Zero + One + Clone + MulRefs + for<'a> AddAssign<&'a T> + for<'a> SubAssign<&'a T>>(x: &T) -> Vec<T> {
    let mut v = vec![x.clone(), x.mul_refs(&T::one())];
    v[0] += &T::zero();
    v
}

type F1<T> = fn(T) -> T;
type F2<T> = fn(&T, &T) -> T;
struct S<T> {
    r: Vec<T>,
    zero: Option<fn() -> T>,
    one: Option<fn() -> T>,
    conj: Option<F1<T>>,
    mul: F2<T>,
    mul_ord: F2<T>,
    div: Option<F2<T>>,
    div_ord: Option<F2<T>>,
    neutral: Option<fn(&T) -> Vec<T>>,
}

impl<T: Val> Session for S<T> {
    fn exec(&mut self, e: &J) -> J {
        match e.s("op") {
            "load" => {
                self.r[e.u("d")] = T::lit(e.get("v"));
                J::obj(vec![])
            }
            op @ ("zero" | "one" | "conj") => {
                let x = match op {
                    "zero" => self.zero.unwrap()(),
                    "one" => self.one.unwrap()(),
                    _ => self.conj.unwrap()(self.r[e.u("a")].clone()),
                };
                let v = x.see();
                self.r[e.u("d")] = x;
                J::obj(vec![("v", v)])
            }
            op @ ("mul" | "div") => {
                let (f, g) = match op {
                    "mul" => (self.mul, self.mul_ord),
                    _ => (self.div.unwrap(), self.div_ord.unwrap()),
                };
                let (a, b) = (&self.r[e.u("a")], &self.r[e.u("b")]);
                let x = guarded(|| f(a, b));
                let (la, lb) = (a.see(), b.see());
                let y = guarded(|| g(a, b));
                let show = |z: &Result<T, ()>| match z {
                    Ok(v) => v.see(),
                    Err(()) => J::Arr(vec![]),
                };
                let o = vec![
                    ("p", J::Bool(x.is_err())),
                    ("v", show(&x)),
                    ("op_", J::Bool(y.is_err())),
                    ("ov", show(&y)),
                    ("la", la),
                    ("lb", lb),
                ];
                if let Ok(v) = y {
                    // the specification goes on with the ordinary value
                    self.r[e.u("d")] = v;
                }
                J::obj(o)
            }
            "neutral" => {
                let v = self.neutral.unwrap()(&self.r[e.u("a")]);
                J::obj(vec![("vs", J::Arr(v.iter().map(|x| x.see()).collect()))])
            }
            "row" => {
                let byte = |k: usize| T::lit(&J::Arr(vec![J::Int(k as i64)]));
                let a = byte(e.u("a"));
                let (f, g) = match e.s("f") {
                    "mul" => (self.mul, self.mul_ord),
                    _ => (self.div.unwrap(), self.div_ord.unwrap()),
                };
                let row = |h: F2<T>| {
                    J::Arr(
                        (0..256)
                            .map(|k| match guarded(|| h(&a, &byte(k))) {
                                Ok(v) => v.see().arr()[0].clone(),
                                Err(()) => J::Int(-1),
                            })
                            .collect(),
                    )
                };
                J::obj(vec![("vs", row(f)), ("os", row(g))])
            }
            "dump" => J::obj(vec![("regs", J::Arr(self.r.iter().map(|x| x.see()).collect()))]),
            o => panic!("harness: unknown op {o}"),
        }
    }
}
fn ord_mul<T: Copy + Mul<Output = T>>(a: &T, b: &T) -> T {
    *a * *b
}
fn ord_div<T: Copy + Div<Output = T>>(a: &T, b: &T) -> T {
    *a / *b
}
macro_rules! mk {
    ($e:expr, $t:ty, $zero:expr, $one:expr, $conj:expr, $neutral:expr) => {
        Box::new(S::<$t> {
            r: vec![<$t>::default(); $e.u("nr")],
            zero: $zero,
            one: $one,
            conj: $conj,
            mul: times::<$t>,
            mul_ord: ord_mul::<$t>,
            div: Some(over::<$t>),
            div_ord: Some(ord_div::<$t>),
            neutral: $neutral,
        })
    };
}
macro_rules! ring {
    ($e:expr, $t:ty, $neutral:expr) => {
        mk!($e, $t, Some(zero::<$t>), Some(one::<$t>), Some(conj::<$t>), Some($neutral))
    };
}
macro_rules! unsigned {
    ($e:expr, $t:ty) => {
        mk!($e, $t, None, None, Some(conj::<$t>), None)
    };
}
fn user<T: Val + Ring>(e: &J, mul_ord: F2<T>, div: Option<F2<T>>, div_ord: Option<F2<T>>, neutral: fn(&T) -> Vec<T>) -> Box<dyn Session> {
    Box::new(S::<T> {
        r: vec![zero::<T>(); e.u("nr")],
        zero: Some(zero::<T>),
        one: Some(one::<T>),
        conj: None,
        mul: times::<T>,
        mul_ord,
        div,
        div_ord,
        neutral: Some(neutral),
    })
}

fn main() {
    main_loop(|e| match e.s("impl") {
        "i8" => ring!(e, i8, neutral::<i8>),
        "i16" => ring!(e, i16, neutral::<i16>),
        "i32" => ring!(e, i32, neutral::<i32>),
        "i64" => ring!(e, i64, neutral::<i64>),
        "i128" => ring!(e, i128, neutral::<i128>),
        "isize" => mk!(e, isize, Some(zero::<isize>), Some(one::<isize>), None, Some(neutral::<isize>)),
        "isize-parts" => mk!(e, isize, Some(zero::<isize>), Some(one::<isize>), None, Some(neutral_parts::<isize>)),
        "f32" => ring!(e, f32, neutral_field::<f32>),
        "f64" => ring!(e, f64, neutral_field::<f64>),
        "u8" => unsigned!(e, u8),
        "u16" => unsigned!(e, u16),
        "u32" => unsigned!(e, u32),
        "u64" => unsigned!(e, u64),
        "u128" => unsigned!(e, u128),
        "usize" => mk!(e, usize, None, None, None, None),
        "gf2" => user::<Gf<2>>(e, ord_mul, Some(over), Some(ord_div), neutral_field),
        "gf3" => user::<Gf<3>>(e, ord_mul, Some(over), Some(ord_div), neutral_field),
        "gf7" => user::<Gf<7>>(e, ord_mul, Some(over), Some(ord_div), neutral_field),
        "rat" => user::<Rat>(e, ord_mul, Some(over), Some(ord_div), neutral_field),
        "free" => user::<Free>(e, |a, b| a.clone() * b.clone(), Some(over), Some(|a, b| a.clone() / b.clone()), neutral),
        "m2" => user::<M2>(e, ord_mul, None, None, neutral),
        "gi" => user::<Gi>(e, ord_mul, None, None, neutral),
        o => panic!("harness: unknown impl {o}"),
    })
}
