//! Suite `store`: containers as values: equality and copies.
use conform::*;
use magnesia::algebra::{Complex, Polynomial, Zero};
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, SMatrix, SVector, VectorExpr};
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Mul};

/// An entry, written as a code.
trait Ent: Clone + PartialEq + Debug + 'static {
    fn mk(code: i64) -> Self;
    fn code(&self) -> i64;
}
impl Ent for i64 {
    fn mk(c: i64) -> Self {
        c
    }
    fn code(&self) -> i64 {
        *self
    }
}
impl Ent for i8 {
    fn mk(c: i64) -> Self {
        c as i8
    }
    fn code(&self) -> i64 {
        *self as i64
    }
}
macro_rules! float {
    ($t:ident) => {
        impl Ent for $t {
            fn mk(c: i64) -> Self {
                match c {
                    1000 => $t::NAN,
                    1001 => -0.0,
                    1002 => $t::INFINITY,
                    1003 => $t::NEG_INFINITY,
                    _ => c as $t,
                }
            }
            fn code(&self) -> i64 {
                if self.is_nan() {
                    1000
                } else if *self == 0.0 && self.is_sign_negative() {
                    1001
                } else if self.is_infinite() {
                    1002 + self.is_sign_negative() as i64
                } else if *self == (*self as i64) as $t && self.abs() < 1000.0 {
                    *self as i64
                } else {
                    7777
                }
            }
        }
    };
}
float!(f32);
float!(f64);
impl Ent for String {
    fn mk(c: i64) -> Self {
        c.to_string()
    }
    fn code(&self) -> i64 {
        self.parse().unwrap_or(7777)
    }
}
impl Ent for Complex<f64> {
    fn mk(c: i64) -> Self {
        Complex::new(f64::mk(c / 10000), f64::mk(c % 10000))
    }
    fn code(&self) -> i64 {
        self.re.code() * 10000 + self.im.code()
    }
}
/// The decimal digits of the code.
impl Ent for DVector<i64> {
    fn mk(c: i64) -> Self {
        let s = if c == 0 { String::new() } else { c.to_string() };
        let b = s.as_bytes();
        make_vector_expr(b.len(), |i| (b[i] - b'0') as i64).eval()
    }
    fn code(&self) -> i64 {
        (0..self.len()).fold(0, |s, i| 10 * s + self[i])
    }
}
/// An entry with an equality of its own: 0 ordinary, 1 as of floating point
/// numbers, 2 modulo 5.
#[derive(Clone, Copy)]
struct El<const Q: u8>(i64);
impl<const Q: u8> Debug for El<Q> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const Q: u8> PartialEq for El<Q> {
    fn eq(&self, o: &Self) -> bool {
        let z = |x: i64| if x == 1001 { 0 } else { x };
        match Q {
            0 => self.0 == o.0,
            1 => self.0 != 1000 && z(self.0) == z(o.0),
            _ => (self.0 - o.0).rem_euclid(5) == 0,
        }
    }
}
impl<const Q: u8> Ent for El<Q> {
    fn mk(c: i64) -> Self {
        El(c)
    }
    fn code(&self) -> i64 {
        self.0
    }
}
impl<const Q: u8> Zero for El<Q> {
    fn zero() -> Self {
        El(0)
    }
}
impl<const Q: u8> Add for El<Q> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        El(self.0 + o.0)
    }
}
impl<'a, const Q: u8> AddAssign<&'a Self> for El<Q> {
    fn add_assign(&mut self, o: &'a Self) {
        self.0 += o.0
    }
}
impl<'a, const Q: u8> Mul<&'a El<Q>> for &'a El<Q> {
    type Output = El<Q>;
    fn mul(self, o: &'a El<Q>) -> El<Q> {
        El(self.0 * o.0)
    }
}

/// A container: how it is made, copied, written to and looked at.
trait Cont: Sized + Clone + PartialEq + 'static {
    fn make(r: usize, c: usize, f: &str, at: &dyn Fn(usize) -> i64) -> Self;
    fn copy(&self, _: &str) -> Self {
        self.clone()
    }
    fn put(&mut self, _i: usize, _j: usize, _y: i64, _f: &str) {
        panic!("harness: set")
    }
    fn add(&mut self, _o: &Self) {
        panic!("harness: add")
    }
    fn see(&self) -> (usize, usize, Vec<i64>);
}

impl<T: Ent> Cont for DMatrix<T> {
    fn make(r: usize, c: usize, f: &str, at: &dyn Fn(usize) -> i64) -> Self {
        match f {
            "t" => make_matrix_expr(c, r, |j, i| T::mk(at(i * c + j))).t().eval(),
            "map" => make_matrix_expr(r, c, |i, j| at(i * c + j)).map(T::mk).eval(),
            "same" if r * c > 0 => {
                let mut m = DMatrix::same(r, c, T::mk(at(0))).eval();
                for k in 0..r * c {
                    if at(k) != at(0) {
                        m[[k / c, k % c]] = T::mk(at(k));
                    }
                }
                m
            }
            _ => make_matrix_expr(r, c, |i, j| T::mk(at(i * c + j))).eval(),
        }
    }
    fn copy(&self, f: &str) -> Self {
        match f {
            "ref" => self.eval(),
            "wrap" => self.wrap().eval(),
            "val" => self.clone().eval(),
            "tt" => self.t().t().eval(),
            _ => self.clone(),
        }
    }
    fn put(&mut self, i: usize, j: usize, y: i64, _: &str) {
        self[[i, j]] = T::mk(y);
    }
    fn see(&self) -> (usize, usize, Vec<i64>) {
        let (r, c) = (self.num_rows(), self.num_cols());
        (r, c, (0..r * c).map(|k| self[[k / c, k % c]].code()).collect())
    }
}
impl<T: Ent> Cont for DVector<T> {
    fn make(r: usize, _: usize, f: &str, at: &dyn Fn(usize) -> i64) -> Self {
        match f {
            "map" => make_vector_expr(r, at).map(T::mk).eval(),
            "slice" => (0..r).map(|k| T::mk(at(k))).collect::<Vec<T>>().as_slice().eval(),
            "same" if r > 0 => {
                let mut v = DVector::same(r, T::mk(at(0))).eval();
                for k in 0..r {
                    if at(k) != at(0) {
                        v[k] = T::mk(at(k));
                    }
                }
                v
            }
            _ => make_vector_expr(r, |i| T::mk(at(i))).eval(),
        }
    }
    fn copy(&self, f: &str) -> Self {
        match f {
            "ref" => self.eval(),
            "wrap" => self.wrap().eval(),
            "val" => self.clone().eval(),
            _ => self.clone(),
        }
    }
    fn put(&mut self, i: usize, _: usize, y: i64, _: &str) {
        self[i] = T::mk(y);
    }
    fn see(&self) -> (usize, usize, Vec<i64>) {
        (self.len(), 1, (0..self.len()).map(|k| self[k].code()).collect())
    }
}
impl<T: Ent, const D: usize> Cont for SVector<T, D> {
    fn make(r: usize, _: usize, f: &str, at: &dyn Fn(usize) -> i64) -> Self {
        assert!(r == D, "harness: dimension");
        let mut k = 0;
        let a = [(); D].map(|_| {
            k += 1;
            T::mk(at(k - 1))
        });
        if f == "fld" {
            SVector(a)
        } else {
            SVector::from(a)
        }
    }
    fn put(&mut self, i: usize, _: usize, y: i64, f: &str) {
        match f {
            "fld" => self.0[i] = T::mk(y),
            "iter" => *self.into_iter().nth(i).unwrap() = T::mk(y),
            _ => self[i] = T::mk(y),
        }
    }
    fn see(&self) -> (usize, usize, Vec<i64>) {
        (D, 1, self.0.iter().map(|x| x.code()).collect())
    }
}
impl<const Q: u8, const R: usize, const C: usize> Cont for SMatrix<El<Q>, R, C> {
    fn make(r: usize, c: usize, _: &str, at: &dyn Fn(usize) -> i64) -> Self {
        assert!((r, c) == (R, C), "harness: shape");
        let mut k = 0;
        SMatrix::from([(); R].map(|_| {
            [(); C].map(|_| {
                k += 1;
                El(at(k - 1))
            })
        }))
    }
    fn copy(&self, f: &str) -> Self {
        match f {
            "bits" => *self,
            _ => self.clone(),
        }
    }
    fn add(&mut self, o: &Self) {
        *self += o;
    }
    /// Static matrices have no accessors: the text of the matrix, or else its
    /// products with the unit vectors.
    fn see(&self) -> (usize, usize, Vec<i64>) {
        let text = format!("{self:?}");
        let text = text.trim_start_matches("SMatrix(").trim_end_matches(')');
        if let Some(J::Arr(rows)) = J::try_parse(text) {
            let shaped = rows.len() == R && rows.iter().all(|r| matches!(r, J::Arr(b) if b.len() == C && b.iter().all(|x| matches!(x, J::Int(_)))));
            if shaped {
                return (R, C, rows.iter().flat_map(|r| r.arr().iter().map(|x| x.int())).collect());
            }
        }
        let mut x = vec![0; R * C];
        for c in 0..C {
            let mut i = 0;
            let e = SVector::from([(); C].map(|_| {
                i += 1;
                El((i - 1 == c) as i64)
            }));
            let col = self * &e;
            for r in 0..R {
                x[r * C + c] = col.0[r].0;
            }
        }
        (R, C, x)
    }
}
impl<T: Ent> Cont for Complex<T> {
    fn make(_: usize, _: usize, f: &str, at: &dyn Fn(usize) -> i64) -> Self {
        if f == "fld" {
            Complex { re: T::mk(at(0)), im: T::mk(at(1)) }
        } else {
            Complex::new(T::mk(at(0)), T::mk(at(1)))
        }
    }
    fn put(&mut self, _: usize, j: usize, y: i64, _: &str) {
        if j == 0 {
            self.re = T::mk(y)
        } else {
            self.im = T::mk(y)
        }
    }
    fn see(&self) -> (usize, usize, Vec<i64>) {
        (1, 2, vec![self.re.code(), self.im.code()])
    }
}
impl Cont for Polynomial<Rx<i64>> {
    fn make(r: usize, _: usize, _: &str, at: &dyn Fn(usize) -> i64) -> Self {
        Polynomial::from_coefficients((0..r).map(|k| if at(k) == 0 { Rx(vec![]) } else { Rx(vec![at(k)]) }).collect())
    }
    fn add(&mut self, o: &Self) {
        *self += o;
    }
    fn see(&self) -> (usize, usize, Vec<i64>) {
        let y = self.eval_ref(&Rx::indet());
        (y.0.len(), 1, y.0)
    }
}

struct S<C>(Vec<C>);
impl<C: Cont> Session for S<C> {
    fn exec(&mut self, e: &J) -> J {
        let r = &mut self.0;
        let f = e.opt("f").map(|f| f.str()).unwrap_or("");
        match e.s("op") {
            "load" => {
                let pat: Vec<i64> = e.a("pat").iter().map(|x| x.int()).collect();
                let at: std::collections::HashMap<usize, i64> = e.a("at").iter().map(|p| (p.arr()[0].us(), p.arr()[1].int())).collect();
                r[e.u("d")] = C::make(e.u("r"), e.u("c"), f, &|k| at.get(&k).copied().unwrap_or(pat[k % pat.len()]));
            }
            "copy" if f == "from" && e.u("d") != e.u("a") => {
                let mut old = r.remove(e.u("d"));
                let a = e.u("a") - (e.u("a") > e.u("d")) as usize;
                old.clone_from(&r[a]);
                r.insert(e.u("d"), old);
            }
            "copy" => {
                let new = r[e.u("a")].copy(f);
                r[e.u("d")] = new;
            }
            "set" => r[e.u("d")].put(e.u("i"), e.u("j"), e.i("y"), f),
            "add" => {
                let y = r[e.u("a")].clone();
                r[e.u("d")].add(&y);
            }
            "eq" => {
                let (a, b) = (&r[e.u("a")], &r[e.u("b")]);
                return J::obj(vec![("eq", J::Bool(a == b)), ("qe", J::Bool(b == a)), ("ne", J::Bool(a != b)), ("en", J::Bool(b != a))]);
            }
            "dump" => {
                return J::obj(vec![(
                    "regs",
                    J::Arr(
                        r.iter()
                            .map(|v| {
                                let (r, c, x) = v.see();
                                let x = J::Arr(x.into_iter().map(J::Int).collect());
                                J::obj(vec![("r", J::Int(r as i64)), ("c", J::Int(c as i64)), ("x", x)])
                            })
                            .collect(),
                    ),
                )]);
            }
            o => panic!("harness: unknown {o}"),
        }
        J::obj(vec![])
    }
}

fn mk<C: Cont>(e: &J) -> Box<dyn Session> {
    Box::new(S((0..e.u("nr")).map(|_| C::make(e.u("r"), e.u("c"), "", &|_| 0)).collect::<Vec<C>>()))
}
macro_rules! entries {
    ($e:expr, $c:ident) => {
        match $e.s("impl") {
            "i64" => mk::<$c<i64>>($e),
            "i8" => mk::<$c<i8>>($e),
            "f32" => mk::<$c<f32>>($e),
            "f64" => mk::<$c<f64>>($e),
            "str" => mk::<$c<String>>($e),
            "cf" => mk::<$c<Complex<f64>>>($e),
            "dvec" => mk::<$c<DVector<i64>>>($e),
            "el0" => mk::<$c<El<0>>>($e),
            "el1" => mk::<$c<El<1>>>($e),
            "el2" => mk::<$c<El<2>>>($e),
            o => panic!("harness: unknown impl {o}"),
        }
    };
}
macro_rules! vectors {
    ($e:expr, $($d:literal),*) => {
        match $e.u("r") {
            $($d => { type V<T> = SVector<T, $d>; entries!($e, V) })*
            o => panic!("harness: dimension {o}"),
        }
    };
}
macro_rules! matrices {
    ($e:expr, $(($r:literal, $c:literal)),*) => {
        match ($e.u("r"), $e.u("c"), $e.s("impl")) {
            $(($r, $c, "el0") => mk::<SMatrix<El<0>, $r, $c>>($e),
              ($r, $c, "el1") => mk::<SMatrix<El<1>, $r, $c>>($e),
              ($r, $c, "el2") => mk::<SMatrix<El<2>, $r, $c>>($e),)*
            o => panic!("harness: shape {o:?}"),
        }
    };
}

fn main() {
    main_loop(|e| match e.s("sort") {
        "dm" => entries!(e, DMatrix),
        "dv" => entries!(e, DVector),
        "cx" => entries!(e, Complex),
        "sv" => vectors!(e, 0, 1, 2, 3, 4, 8, 9, 17, 33, 64, 65, 130, 257, 1025, 70000),
        "sm" => matrices!(
            e,
            (0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 9), (9, 1), (5, 4), (1, 33), (33, 1),
            (17, 16), (1, 65), (65, 1), (1, 257), (257, 2), (300, 300)
        ),
        "po" => mk::<Polynomial<Rx<i64>>>(e),
        o => panic!("harness: unknown sort {o}"),
    });
}
