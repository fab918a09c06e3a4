//! Suite `cplx`: complex variables over many component rings.
use conform::*;
use magnesia::algebra::{Complex, Conj, DivRefs, Field, MulRefs, One, Ring, Zero};
use magnesia::functions::{Abs, Sqrt};
use std::ops::{Add, AddAssign, Sub, SubAssign};

type C<T> = Complex<T>;

/// What a component type supports beyond the ring operations.
trait CSc:
    Sc + Ring + Add<Output = Self> + Sub<Output = Self> + AddAssign<Self> + SubAssign<Self>
{
    fn obs(&self, _den: Option<i64>) -> J {
        self.to_j()
    }
    /// The number times 2^k.
    fn scale(self, k: i64) -> Self {
        assert!(k == 0, "harness: no scale");
        self
    }
    fn div(_f: &str, _a: &C<Self>, _b: &C<Self>) -> C<Self> {
        panic!("harness: no division")
    }
    fn sdiv(_f: &str, _a: &C<Self>, _x: Self) -> C<Self> {
        panic!("harness: no division by scalars")
    }
    fn query(_e: &J, _z: &C<Self>) -> J {
        panic!("harness: no such query")
    }
}
fn div_field<T: Field>(f: &str, a: &C<T>, b: &C<T>) -> C<T> {
    match f {
        "vv" => a.clone() / b.clone(),
        "rr" => a / b,
        "mr" => a.div_refs(b),
        _ => panic!("harness: form {f}"),
    }
}
macro_rules! sdiv_forms {
    () => {
        fn sdiv(f: &str, a: &C<Self>, x: Self) -> C<Self> {
            match f {
                "vv" => a.clone() / x,
                "vr" => a.clone() / &x,
                "rr" => a / &x,
                _ => panic!("harness: form {f}"),
            }
        }
    };
}
macro_rules! rings { ($($t:ty),*) => { $( impl CSc for $t {} )* }; }
macro_rules! ints { ($($t:ty),*) => { $( impl CSc for $t { sdiv_forms!(); } )* }; }
rings!(Free, M2, Gi);
ints!(i8, i16, i32, i64, i128, isize);
impl<const P: i64> CSc for Gf<P> {
    fn div(f: &str, a: &C<Self>, b: &C<Self>) -> C<Self> {
        div_field(f, a, b)
    }
    sdiv_forms!();
}
fn sgn<T: PartialOrd + Zero>(x: &T) -> J {
    J::Int(if *x > T::zero() {
        1
    } else if *x < T::zero() {
        -1
    } else {
        0
    })
}
impl CSc for Rat {
    fn div(f: &str, a: &C<Self>, b: &C<Self>) -> C<Self> {
        div_field(f, a, b)
    }
    sdiv_forms!();
    fn query(e: &J, z: &C<Self>) -> J {
        match e.s("op") {
            "abs" => {
                let y = if e.s("f") == "v" { (*z).abs() } else { (&*z).abs() };
                J::obj(vec![("sg", sgn(&y)), ("y", y.to_j()), ("y2", (&y * &y).to_j())])
            }
            "sqrt" => {
                let s = z.sqrt();
                let sq = [s.re * s.re - s.im * s.im, s.re * s.im + s.re * s.im];
                J::obj(vec![
                    ("sq", J::Arr(sq.iter().map(|x| x.to_j()).collect())),
                    ("sg", J::Arr(vec![sgn(&s.re), sgn(&s.im)])),
                    ("root", J::Arr(vec![s.re.to_j(), s.im.to_j()])),
                ])
            }
            o => panic!("harness: {o}"),
        }
    }
}
macro_rules! floats {
    ($($t:ty, $tol:expr);*) => { $(
        impl CSc for $t {
            fn obs(&self, den: Option<i64>) -> J {
                match den {
                    Some(d) => J::Arr(vec![snap(*self as f64 * d as f64, $tol), J::Int(d)]),
                    None => self.to_j(),
                }
            }
            fn scale(self, k: i64) -> Self {
                // in two steps, exact as long as the result is a normal number
                let half = k / 2;
                self * <$t>::powi(2.0, half as i32) * <$t>::powi(2.0, (k - half) as i32)
            }
            fn div(f: &str, a: &C<Self>, b: &C<Self>) -> C<Self> { div_field(f, a, b) }
            sdiv_forms!();
            fn query(e: &J, z: &C<Self>) -> J {
                let osh = e.opt("osh").map(|k| k.int()).unwrap_or(0);
                let den = e.i("den");
                let d = den as f64;
                let q = |v: f64| J::Arr(vec![snap(v * d, $tol), J::Int(den)]);
                match e.s("op") {
                    "abs" => {
                        let y = if e.s("f") == "v" { (*z).abs() } else { (&*z).abs() };
                        let v = (y as f64).scale(-osh);
                        J::obj(vec![("sg", sgn(&y)), ("y2", J::Arr(vec![snap(v * v * d * d, $tol), J::Int(den * den)]))])
                    }
                    "arg" => {
                        let a = (*z).arg() as f64;
                        let (x, y) = ((z.re as f64).scale(-osh), (z.im as f64).scale(-osh));
                        let r = (x * x + y * y).sqrt();
                        let pi = std::f64::consts::PI + 4.0 * <$t>::EPSILON as f64;
                        J::obj(vec![
                            ("polar", J::Arr(vec![q(r * a.cos()), q(r * a.sin())])),
                            ("inrange", J::Bool(a >= -pi && a <= pi)),
                            ("sg", sgn(&a)),
                            ("negzero", J::Bool(z.im == 0.0 && z.im.is_sign_negative())),
                        ])
                    }
                    "sqrt" => {
                        let s = z.sqrt();
                        let (x, y) = ((s.re as f64).scale(-osh), (s.im as f64).scale(-osh));
                        // the parts of s * s carry rounding errors relative to |z|
                        let q = |v: f64| {
                            let err = 64.0 * <$t>::EPSILON as f64 * (x * x + y * y) * d;
                            J::Arr(vec![snap_abs(v * d, err + $tol * (v * d).abs().max(1.0)), J::Int(den)])
                        };
                        let mut o = vec![
                            ("sq", J::Arr(vec![q(x * x - y * y), q(2.0 * x * y)])),
                            ("sg", J::Arr(vec![sgn(&s.re), sgn(&s.im)])),
                        ];
                        if let Some(rd) = e.opt("rden") {
                            let p = |v: f64| J::Arr(vec![snap(v * rd.int() as f64, $tol), rd.clone()]);
                            o.push(("root", J::Arr(vec![p(x), p(y)])));
                        }
                        J::obj(o)
                    }
                    o => panic!("harness: {o}"),
                }
            }
        }
    )* };
}
floats!(f32, TOL32; f64, TOL64);

struct S<T: CSc> {
    r: Vec<C<T>>,
}

fn lit<T: Sc>(j: &J) -> C<T> {
    C::new(T::from_j(&j.arr()[0]), T::from_j(&j.arr()[1]))
}

impl<T: CSc> Session for S<T> {
    fn exec(&mut self, e: &J) -> J {
        let op = e.s("op");
        let den = e.opt("den").map(|d| d.int());
        // numbers of any magnitude are observed over a power of two
        let osh = e.opt("osh").map(|k| k.int()).unwrap_or(0);
        let ob = |x: &T| x.clone().scale(-osh).obs(den);
        let show = |z: &C<T>| J::Arr(vec![ob(&z.re), ob(&z.im)]);
        let f = e.opt("f").map(|f| f.str()).unwrap_or("");
        let a = || &self.r[e.u("a")];
        let b = || &self.r[e.u("b")];
        match op {
            "dump" => return J::obj(vec![("regs", J::Arr(self.r.iter().map(show).collect()))]),
            "eq" => {
                let (x, y) = (a() == b(), a() != b());
                return J::obj(vec![("eq", J::Bool(x)), ("ne", J::Bool(y))]);
            }
            "norm" => return J::obj(vec![("y", ob(&a().sqr_norm()))]),
            "abs" | "arg" | "sqrt" => return T::query(e, a()),
            _ => {}
        }
        let d = e.u("d");
        match (op, f) {
            ("load", _) => {
                let (z, k) = (lit::<T>(e.get("v")), e.opt("sh").map(|k| k.int()).unwrap_or(0));
                self.r[d] = C::new(z.re.scale(k), z.im.scale(k));
            }
            ("zero", _) => self.r[d] = C::zero(),
            ("one", _) => self.r[d] = C::one(),
            ("clone", _) => self.r[d] = a().clone(),
            ("neg", _) => self.r[d] = -a().clone(),
            ("conj", _) => self.r[d] = a().clone().conj(),
            ("add", "vv") => self.r[d] = a().clone() + b().clone(),
            ("add", "av") => {
                let y = b().clone();
                self.r[d] += y
            }
            ("add", "ar") => {
                let y = b().clone();
                self.r[d] += &y;
                self.r[e.u("b")] = if d == e.u("b") { self.r[d].clone() } else { y };
            }
            ("sub", "vv") => self.r[d] = a().clone() - b().clone(),
            ("sub", "av") => {
                let y = b().clone();
                self.r[d] -= y
            }
            ("sub", "ar") => {
                let y = b().clone();
                self.r[d] -= &y;
                self.r[e.u("b")] = if d == e.u("b") { self.r[d].clone() } else { y };
            }
            ("mul", "vv") => self.r[d] = a().clone() * b().clone(),
            ("mul", "rr") => self.r[d] = a() * b(),
            ("mul", "mr") => self.r[d] = a().mul_refs(b()),
            ("mul", "av") => {
                let y = b().clone();
                self.r[d] *= y
            }
            ("sqr", _) => {
                let x = self.r[d].clone();
                self.r[d] *= x
            }
            ("smul", _) => self.r[d] = a().clone() * T::from_j(e.get("x")),
            ("div", _) => self.r[d] = T::div(f, a(), b()),
            ("sdiv", _) => self.r[d] = T::sdiv(f, a(), T::from_j(e.get("x"))),
            _ => panic!("harness: unknown {op} {f}"),
        }
        J::obj(vec![("obs", show(&self.r[d]))])
    }
}

fn mk<T: CSc>(e: &J) -> Box<dyn Session> {
    Box::new(S::<T> {
        r: (0..e.u("nr")).map(|_| C::zero()).collect(),
    })
}

fn main() {
    main_loop(|e| match e.s("impl") {
        "i8" => mk::<i8>(e),
        "i16" => mk::<i16>(e),
        "i32" => mk::<i32>(e),
        "i64" => mk::<i64>(e),
        "i128" => mk::<i128>(e),
        "isize" => mk::<isize>(e),
        "f32" => mk::<f32>(e),
        "f64" => mk::<f64>(e),
        "gf2" => mk::<Gf<2>>(e),
        "gf3" => mk::<Gf<3>>(e),
        "gf5" => mk::<Gf<5>>(e),
        "gf7" => mk::<Gf<7>>(e),
        "gf11" => mk::<Gf<11>>(e),
        "rat" => mk::<Rat>(e),
        "free" => mk::<Free>(e),
        "m2" => mk::<M2>(e),
        "gi" => mk::<Gi>(e),
        o => panic!("harness: unknown impl {o}"),
    })
}
