//! Suite `tower`: polynomials, complex numbers and square matrices nested in
//! each other, driven by code that knows nothing but the `Ring` interface.
use conform::*;
use magnesia::algebra::{Complex, Polynomial, Ring};
use magnesia::linalg::{SMatrix, SVector};
use std::fmt::Debug;

/// Innermost scalars: constants of R[x][y], so that two levels of
/// polynomials can be observed by evaluation at central indeterminates.
type Base<R> = Rx<Rx<R>>;

/// A floor of the tower.
trait Tow: Ring + Debug + 'static {
    fn lit(j: &J) -> Self;
    /// Number of polynomial floors at and below this one.
    const POLYS: usize;
    /// The indeterminate number i as an element of this ring.
    fn indet(i: usize) -> Self;
    /// Splits off the coefficient of the n-th power of indeterminate i.
    fn part(&self, i: usize, n: usize) -> Self;
    fn degree(&self, i: usize) -> usize;
    /// The value, computed from public access to the components.
    fn see(&self) -> J;
}

impl<R: Sc + Ring + Debug> Tow for Base<R> {
    fn lit(j: &J) -> Self {
        <Self as Sc>::from_j(j)
    }
    const POLYS: usize = 0;
    fn indet(i: usize) -> Self {
        match i {
            0 => Rx(vec![Rx::indet()]),
            _ => Rx::indet(),
        }
    }
    fn part(&self, i: usize, n: usize) -> Self {
        if i == 1 {
            let c = self.0.get(n).cloned().unwrap_or(Rx(vec![]));
            return if c.0.is_empty() { Rx(vec![]) } else { Rx(vec![c]) };
        }
        let mut v: Vec<Rx<R>> = self
            .0
            .iter()
            .map(|c| match c.0.get(n) {
                Some(x) if *x != R::zero() => Rx(vec![x.clone()]),
                _ => Rx(vec![]),
            })
            .collect();
        while v.last().is_some_and(|c| c.0.is_empty()) {
            v.pop();
        }
        Rx(v)
    }
    fn degree(&self, i: usize) -> usize {
        if i == 1 {
            self.0.len()
        } else {
            self.0.iter().map(|c| c.0.len()).max().unwrap_or(0)
        }
    }
    fn see(&self) -> J {
        self.to_j()
    }
}

impl<T: Tow> Tow for Complex<T> {
    fn lit(j: &J) -> Self {
        Complex::new(T::lit(&j.arr()[0]), T::lit(&j.arr()[1]))
    }
    const POLYS: usize = T::POLYS;
    fn indet(i: usize) -> Self {
        Complex::new(T::indet(i), T::zero())
    }
    fn part(&self, i: usize, n: usize) -> Self {
        Complex::new(self.re.part(i, n), self.im.part(i, n))
    }
    fn degree(&self, i: usize) -> usize {
        self.re.degree(i).max(self.im.degree(i))
    }
    fn see(&self) -> J {
        J::Arr(vec![self.re.see(), self.im.see()])
    }
}

/// The entries of a matrix, from products with unit vectors.
fn entries<T: Tow, const N: usize>(m: &SMatrix<T, N, N>) -> Vec<Vec<T>> {
    let mut rows = vec![vec![T::zero(); N]; N];
    for c in 0..N {
        let e = SVector::from(std::array::from_fn(|i| if i == c { T::one() } else { T::zero() }));
        let col: SVector<T, N> = m * &e;
        for (r, x) in col.0.into_iter().enumerate() {
            rows[r][c] = x;
        }
    }
    rows
}
fn from_rows<T: Tow, const N: usize>(v: Vec<Vec<T>>) -> SMatrix<T, N, N> {
    SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| v[i][j].clone())))
}

impl<T: Tow, const N: usize> Tow for SMatrix<T, N, N> {
    fn lit(j: &J) -> Self {
        from_rows(j.arr().iter().map(|r| r.arr().iter().map(T::lit).collect()).collect())
    }
    const POLYS: usize = T::POLYS;
    fn indet(i: usize) -> Self {
        SMatrix::from(std::array::from_fn(|r| {
            std::array::from_fn(|c| if r == c { T::indet(i) } else { T::zero() })
        }))
    }
    fn part(&self, i: usize, n: usize) -> Self {
        from_rows(entries(self).iter().map(|r| r.iter().map(|x| x.part(i, n)).collect()).collect())
    }
    fn degree(&self, i: usize) -> usize {
        entries(self).iter().flatten().map(|x| x.degree(i)).max().unwrap_or(0)
    }
    fn see(&self) -> J {
        J::Arr(entries(self).iter().map(|r| J::Arr(r.iter().map(|x| x.see()).collect())).collect())
    }
}

impl<T: Tow> Tow for Polynomial<T> {
    fn lit(j: &J) -> Self {
        Polynomial::from_coefficients(j.arr().iter().map(T::lit).collect())
    }
    const POLYS: usize = T::POLYS + 1;
    fn indet(i: usize) -> Self {
        Polynomial::from_coefficients(vec![T::indet(i)])
    }
    fn part(&self, i: usize, n: usize) -> Self {
        Polynomial::from_coefficients(self.coefs().iter().map(|c| c.part(i, n)).collect())
    }
    fn degree(&self, i: usize) -> usize {
        self.coefs().iter().map(|c| c.degree(i)).max().unwrap_or(0)
    }
    fn see(&self) -> J {
        J::Arr(self.coefs().iter().map(|c| c.see()).collect())
    }
}

trait Coefs<T> {
    fn coefs(&self) -> Vec<T>;
}
impl<T: Tow> Coefs<T> for Polynomial<T> {
    fn coefs(&self) -> Vec<T> {
        let i = T::POLYS;
        let y = self.eval_ref(&T::indet(i));
        (0..y.degree(i)).map(|n| y.part(i, n)).collect()
    }
}

/// Debug output of nested structures as JSON: names of types and fields are
/// dropped, several fields become an array.
fn debug_json(s: &str) -> Option<J> {
    fn value(b: &[u8], p: &mut usize) -> Option<J> {
        while *p < b.len() && b[*p] == b' ' {
            *p += 1;
        }
        let close = |c: u8| match c {
            b'[' => b']',
            b'{' => b'}',
            _ => b')',
        };
        while b.get(*p)?.is_ascii_alphabetic() || matches!(b[*p], b'_' | b' ') {
            *p += 1;
        }
        match *b.get(*p)? {
            o @ (b'[' | b'{' | b'(') => {
                *p += 1;
                let mut v = vec![];
                loop {
                    while matches!(*b.get(*p)?, b' ' | b',') {
                        *p += 1;
                    }
                    if b[*p] == close(o) {
                        *p += 1;
                        break;
                    }
                    if o == b'{' {
                        while *b.get(*p)? != b':' {
                            *p += 1;
                        }
                        *p += 1;
                    }
                    v.push(value(b, p)?);
                }
                Some(if o != b'[' && v.len() == 1 { v.pop().unwrap() } else { J::Arr(v) })
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let s = *p;
                while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                    *p += 1;
                }
                std::str::from_utf8(&b[s..*p]).ok()?.parse().ok().map(J::Int)
            }
            _ => None,
        }
    }
    let mut p = 0;
    let v = value(s.as_bytes(), &mut p)?;
    (p == s.len()).then_some(v)
}

/// The observed value and whether the library's `==` recognises it.
fn observe<T: Tow>(x: &T) -> (J, bool) {
    if let Some(j) = debug_json(&format!("{x:?}")) {
        if let Ok(true) = guarded(|| T::lit(&j) == *x) {
            return (j, true);
        }
    }
    let j = x.see();
    let ok = T::lit(&j) == *x;
    (j, ok)
}

// ---- everything from here on is generic code over the ring interface
fn sum<T: Ring>(a: &T, b: &T) -> T {
    let mut s = a.clone();
    s += b;
    s
}
fn diff<T: Ring>(a: &T, b: &T) -> T {
    let mut s = a.clone();
    s -= b;
    s
}
fn power<T: Ring>(x: &T, mut n: usize) -> T {
    let (mut y, mut b) = (T::one(), x.clone());
    while n > 0 {
        if n % 2 == 1 {
            y = y.mul_refs(&b);
        }
        n /= 2;
        if n > 0 {
            b = b.mul_refs(&b);
        }
    }
    y
}
fn run<T: Ring>(r: &mut [T], e: &J) {
    let a = || &r[e.u("a")];
    let b = || &r[e.u("b")];
    let f = e.opt("f").map(|f| f.str()).unwrap_or("");
    let d = e.u("d");
    let v = match (e.s("op"), f) {
        ("zero", _) => T::zero(),
        ("one", _) => T::one(),
        ("clone", _) => a().clone(),
        ("neg", _) => -a().clone(),
        ("add", "ar") => sum(&r[d], b()),
        ("sub", "ar") => diff(&r[d], b()),
        ("mul", "mr") => a().mul_refs(b()),
        ("pow", _) => power(a(), e.u("n")),
        // a product accumulated in place, as matrix and polynomial products do
        ("acc", _) => {
            let mut s = r[d].clone();
            s += &a().mul_refs(b());
            s
        }
        ("comm", _) => {
            let mut s = a().mul_refs(b());
            s -= &b().mul_refs(a());
            s
        }
        (o, f) => panic!("harness: unknown {o} {f}"),
    };
    r[d] = v;
}

struct S<T: Tow>(Vec<T>);
impl<T: Tow> Session for S<T> {
    fn exec(&mut self, e: &J) -> J {
        let both = |x: &T| {
            let (j, ok) = observe(x);
            J::Arr(vec![j, J::Bool(ok)])
        };
        match e.s("op") {
            "dump" => return J::obj(vec![("regs", J::Arr(self.0.iter().map(both).collect()))]),
            "eq" => {
                let (x, y) = (&self.0[e.u("a")], &self.0[e.u("b")]);
                return J::obj(vec![("eq", J::Bool(x == y)), ("ne", J::Bool(x != y))]);
            }
            "iszero" => {
                let x = &self.0[e.u("a")];
                return J::obj(vec![("eq", J::Bool(*x == T::zero())), ("ne", J::Bool(*x != T::zero()))]);
            }
            "load" => self.0[e.u("d")] = T::lit(e.get("v")),
            _ => run(&mut self.0, e),
        }
        J::obj(vec![("obs", both(&self.0[e.u("d")]))])
    }
}

fn mk<T: Tow>(e: &J) -> Box<dyn Session> {
    Box::new(S((0..e.u("nr")).map(|_| T::zero()).collect::<Vec<T>>()))
}

type P<T> = Polynomial<T>;
type C<T> = Complex<T>;
type M<T> = SMatrix<T, 2, 2>;

fn pick<R: Sc + Ring + Debug>(tower: &str, e: &J) -> Box<dyn Session> {
    match tower {
        "pp" => mk::<P<P<Base<R>>>>(e),
        "pc" => mk::<P<C<Base<R>>>>(e),
        "pm" => mk::<P<M<Base<R>>>>(e),
        "cp" => mk::<C<P<Base<R>>>>(e),
        "cc" => mk::<C<C<Base<R>>>>(e),
        "cm" => mk::<C<M<Base<R>>>>(e),
        "mp" => mk::<M<P<Base<R>>>>(e),
        "mc" => mk::<M<C<Base<R>>>>(e),
        "mm" => mk::<M<M<Base<R>>>>(e),
        "tm" => mk::<SMatrix<SMatrix<Base<R>, 3, 3>, 1, 1>>(e),
        "tc" => mk::<SMatrix<C<Base<R>>, 3, 3>>(e),
        "pmc" => mk::<P<M<C<Base<R>>>>>(e),
        "mpc" => mk::<M<P<C<Base<R>>>>>(e),
        "cpm" => mk::<C<P<M<Base<R>>>>>(e),
        "cmp" => mk::<C<M<P<Base<R>>>>>(e),
        "pcp" => mk::<P<C<P<Base<R>>>>>(e),
        "ccc" => mk::<C<C<C<Base<R>>>>>(e),
        o => panic!("harness: unknown tower {o}"),
    }
}

fn main() {
    main_loop(|e| {
        let t = e.s("tower");
        match e.s("base") {
            "i64" => pick::<i64>(t, e),
            "gf3" => pick::<Gf<3>>(t, e),
            "free" => pick::<Free>(t, e),
            o => panic!("harness: unknown base {o}"),
        }
    })
}
