//! Suite `poly`: polynomial variables over many coefficient rings.
use conform::*;
use magnesia::algebra::{MulRefs, One, Polynomial, Ring, Zero};

/// How a polynomial over this scalar is observed through the public API.
trait PolySc: Sc + Ring {
    fn observe(p: &Polynomial<Self>, pts: &[Self]) -> J;
}
/// Over R[x]: evaluation at x shows every coefficient.
impl<R: Sc + Ring> PolySc for Rx<R> {
    fn observe(p: &Polynomial<Self>, _: &[Self]) -> J {
        let y = p.eval_ref(&Rx::indet());
        J::obj(vec![("co", J::Arr(y.0.iter().map(|c| c.to_j()).collect()))])
    }
}
macro_rules! by_points {
    ($($t:ty),*) => { $(
        impl PolySc for $t {
            fn observe(p: &Polynomial<Self>, pts: &[Self]) -> J {
                J::obj(vec![("pt", J::Arr(pts.iter().map(|x|
                    J::Arr(vec![x.to_j(), p.eval_ref(x).to_j()])).collect()))])
            }
        }
    )* };
}
by_points!(i8, i16, i32, i64, i128, isize, f32, f64);
by_points!(Gf<2>, Gf<3>, Gf<7>, Rat, Free, M2, Gi);

struct S<T: PolySc> {
    r: Vec<Polynomial<T>>,
    pts: Vec<T>,
}

fn coefs<T: Sc>(j: &J) -> Vec<T> {
    j.arr().iter().map(T::from_j).collect()
}

impl<T: PolySc> Session for S<T> {
    fn exec(&mut self, e: &J) -> J {
        let op = e.s("op");
        if op == "dump" {
            return J::obj(vec![(
                "regs",
                J::Arr(self.r.iter().map(|p| T::observe(p, &self.pts)).collect()),
            )]);
        }
        let a = || &self.r[e.u("a")];
        let b = || &self.r[e.u("b")];
        match op {
            "eq" => {
                let (x, y) = (a() == b(), a() != b());
                return J::obj(vec![("eq", J::Bool(x)), ("ne", J::Bool(y))]);
            }
            "eval" => {
                let x = T::from_j(e.get("x"));
                let y = if e.s("f") == "v" {
                    a().eval(x)
                } else {
                    a().eval_ref(&x)
                };
                return J::obj(vec![("y", y.to_j())]);
            }
            _ => {}
        }
        let f = e.opt("f").map(|f| f.str()).unwrap_or("");
        let d = e.u("d");
        match (op, f) {
            ("load", _) => self.r[d] = Polynomial::from_coefficients(coefs(e.get("v"))),
            ("zero", _) => self.r[d] = Polynomial::zero(),
            ("one", _) => self.r[d] = Polynomial::one(),
            ("clone", _) => self.r[d] = a().clone(),
            ("neg", _) => self.r[d] = -a().clone(),
            ("add", "vv") => self.r[d] = a().clone() + b().clone(),
            ("add", "av") => {
                let y = b().clone();
                self.r[d] += y
            }
            ("add", "ar") => {
                let y = b().clone();
                self.r[d] += &y;
                self.r[e.u("b")] = if d == e.u("b") { self.r[d].clone() } else { y };
            }
            ("sub", "vv") => self.r[d] = a().clone() - b().clone(),
            ("sub", "av") => {
                let y = b().clone();
                self.r[d] -= y
            }
            ("sub", "ar") => {
                let y = b().clone();
                self.r[d] -= &y;
                self.r[e.u("b")] = if d == e.u("b") { self.r[d].clone() } else { y };
            }
            ("mul", "vv") => self.r[d] = a().clone() * b().clone(),
            ("mul", "av") => {
                let y = b().clone();
                self.r[d] *= y
            }
            ("mul", "rr") => self.r[d] = a() * b(),
            ("mul", "mr") => self.r[d] = a().mul_refs(b()),
            _ => panic!("harness: unknown {op} {f}"),
        }
        J::obj(vec![("obs", T::observe(&self.r[d], &self.pts))])
    }
}

fn mk<T: PolySc>(e: &J) -> Box<dyn Session> {
    Box::new(S::<T> {
        r: (0..e.u("nr")).map(|_| Polynomial::zero()).collect(),
        pts: e.opt("pts").map(coefs).unwrap_or_default(),
    })
}

fn main() {
    main_loop(|e| match e.s("impl") {
        "i8" => mk::<i8>(e),
        "i16" => mk::<i16>(e),
        "i32" => mk::<i32>(e),
        "i64" => mk::<i64>(e),
        "i128" => mk::<i128>(e),
        "isize" => mk::<isize>(e),
        "f32" => mk::<f32>(e),
        "f64" => mk::<f64>(e),
        "gf2" => mk::<Gf<2>>(e),
        "gf3" => mk::<Gf<3>>(e),
        "gf7" => mk::<Gf<7>>(e),
        "rat" => mk::<Rat>(e),
        "free" => mk::<Free>(e),
        "m2" => mk::<M2>(e),
        "gi" => mk::<Gi>(e),
        "x-i64" => mk::<Rx<i64>>(e),
        "x-f64" => mk::<Rx<f64>>(e),
        "x-gf2" => mk::<Rx<Gf<2>>>(e),
        "x-gf3" => mk::<Rx<Gf<3>>>(e),
        "x-gf7" => mk::<Rx<Gf<7>>>(e),
        "x-rat" => mk::<Rx<Rat>>(e),
        "x-free" => mk::<Rx<Free>>(e),
        "x-m2" => mk::<Rx<M2>>(e),
        "x-gi" => mk::<Rx<Gi>>(e),
        o => panic!("harness: unknown impl {o}"),
    })
}
