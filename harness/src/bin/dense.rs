//! Suite `dense`: dynamically sized matrices and vectors, and the lazy
//! expressions over them.
use conform::*;
use magnesia::algebra::{Complex, Conj, Ring};
use magnesia::linalg::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Mul, Sub, SubAssign};
use std::rc::Rc;

trait Tt:
    Sc + Ring + Conj + Debug + Add<Output = Self> + Sub<Output = Self> + AddAssign + SubAssign + Mul<Output = Self> + DivT
{
}
impl<T> Tt for T where
    T: Sc + Ring + Conj + Debug + Add<Output = T> + Sub<Output = T> + AddAssign + SubAssign + Mul<Output = T> + DivT
{
}

/// Element-wise quotients, for the scalars that have a division.
trait DivT: Sized + Clone {
    fn mdiv<'a>(_a: BM<'a, Self>, _b: BM<'a, Self>) -> BM<'a, Self> {
        panic!("harness: no quotient")
    }
    fn mdivm<'a>(_a: &'a DMatrix<Self>, _b: BM<'a, Self>) -> BM<'a, Self> {
        panic!("harness: no quotient")
    }
    fn vdiv<'a>(_a: BV<'a, Self>, _b: BV<'a, Self>) -> BV<'a, Self> {
        panic!("harness: no quotient")
    }
    fn vdivm<'a>(_a: &'a DVector<Self>, _b: BV<'a, Self>) -> BV<'a, Self> {
        panic!("harness: no quotient")
    }
}
macro_rules! divs {
    ($($t:ty),*) => { $(
        impl DivT for $t {
            fn mdiv<'a>(a: BM<'a, Self>, b: BM<'a, Self>) -> BM<'a, Self> { bm(a.wrap().div_elemwise(b)) }
            fn mdivm<'a>(a: &'a DMatrix<Self>, b: BM<'a, Self>) -> BM<'a, Self> { bm(a.div_elemwise(b)) }
            fn vdiv<'a>(a: BV<'a, Self>, b: BV<'a, Self>) -> BV<'a, Self> { bv(a.wrap().div_elemwise(b)) }
            fn vdivm<'a>(a: &'a DVector<Self>, b: BV<'a, Self>) -> BV<'a, Self> { bv(a.div_elemwise(b)) }
        }
    )* };
}
divs!(i32, i64, f64, Free, Gf<7>, Rat);
impl DivT for Gf<2> {}
impl DivT for M2 {}
impl DivT for Gi {}
impl<T: Clone> DivT for Complex<T> {}

// ---------------------------------------------------------- erased expressions
trait DynM<T> {
    fn e(&self, r: usize, c: usize) -> T;
    fn nr(&self) -> usize;
    fn nc(&self) -> usize;
    fn ev(self: Box<Self>) -> DMatrix<T>;
}
impl<T, E: MatrixExpr<Entry = T>> DynM<T> for E {
    fn e(&self, r: usize, c: usize) -> T {
        self.entry(r, c)
    }
    fn nr(&self) -> usize {
        self.num_rows()
    }
    fn nc(&self) -> usize {
        self.num_cols()
    }
    fn ev(self: Box<Self>) -> DMatrix<T> {
        (*self).eval()
    }
}
struct BM<'a, T>(Box<dyn DynM<T> + 'a>);
fn bm<'a, T>(e: impl MatrixExpr<Entry = T> + 'a) -> BM<'a, T> {
    BM(Box::new(e))
}
impl<T> MatrixExpr for BM<'_, T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T {
        self.0.e(r, c)
    }
    fn num_rows(&self) -> usize {
        self.0.nr()
    }
    fn num_cols(&self) -> usize {
        self.0.nc()
    }
    fn eval(self) -> DMatrix<T> {
        self.0.ev()
    }
}
trait DynV<T> {
    fn e(&self, i: usize) -> T;
    fn n(&self) -> usize;
    fn empty(&self) -> bool;
    fn ev(self: Box<Self>) -> DVector<T>;
}
impl<T, E: VectorExpr<Entry = T>> DynV<T> for E {
    fn e(&self, i: usize) -> T {
        self.entry(i)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn ev(self: Box<Self>) -> DVector<T> {
        (*self).eval()
    }
}
struct BV<'a, T>(Box<dyn DynV<T> + 'a>);
fn bv<'a, T>(e: impl VectorExpr<Entry = T> + 'a) -> BV<'a, T> {
    BV(Box::new(e))
}
impl<T> VectorExpr for BV<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        self.0.e(i)
    }
    fn len(&self) -> usize {
        self.0.n()
    }
    fn is_empty(&self) -> bool {
        self.0.empty()
    }
    fn eval(self) -> DVector<T> {
        self.0.ev()
    }
}
/// An expression type the user wrote, with nothing but the required methods.
struct UserM<T>(Vec<Vec<T>>, usize, usize);
impl<T: Clone> MatrixExpr for UserM<T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T {
        assert!(r < self.1 && c < self.2);
        self.0[r][c].clone()
    }
    fn num_rows(&self) -> usize {
        self.1
    }
    fn num_cols(&self) -> usize {
        self.2
    }
}
struct UserV<T>(Vec<T>);
impl<T: Clone> VectorExpr for UserV<T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        self.0[i].clone()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

// ---------------------------------------------------------- the log of calls
#[derive(Default)]
struct Log {
    g: RefCell<Vec<J>>, // generators: [id, row, col] or [id, index]
    m: RefCell<Vec<J>>, // mapping functions: [id, value]
    z: RefCell<Vec<J>>, // functions mapped over a zip: [id, left, right]
}
impl Log {
    fn count(&self) -> usize {
        self.g.borrow().len() + self.m.borrow().len() + self.z.borrow().len()
    }
    fn obj(&self) -> J {
        let t = |v: &RefCell<Vec<J>>| J::Arr(v.borrow().clone());
        J::obj(vec![("g", t(&self.g)), ("m", t(&self.m)), ("z", t(&self.z))])
    }
}

struct S<T> {
    m: Vec<DMatrix<T>>,
    v: Vec<DVector<T>>,
}

fn table<T: Sc>(j: &J) -> Vec<Vec<T>> {
    j.arr().iter().map(|r| r.arr().iter().map(|x| T::from_j(x)).collect()).collect()
}
fn list<T: Sc>(j: &J) -> Vec<T> {
    j.arr().iter().map(|x| T::from_j(x)).collect()
}
fn arr<'a, T: Sc, const R: usize, const C: usize>(t: &[Vec<T>], wrap: bool) -> BM<'a, T> {
    let a: [[T; C]; R] = std::array::from_fn(|r| std::array::from_fn(|c| t[r][c].clone()));
    if wrap {
        bm(a.wrap())
    } else {
        bm(a)
    }
}
fn array<'a, T: Tt>(r: usize, c: usize, t: &[Vec<T>], wrap: bool) -> BM<'a, T> {
    macro_rules! shapes { ($(($r:literal, $c:literal)),*) => {
        match (r, c) { $( ($r, $c) => arr::<T, $r, $c>(t, wrap), )* s => panic!("harness: array shape {s:?}") }
    }; }
    shapes!((0, 0), (0, 1), (0, 2), (0, 5), (1, 0), (2, 0), (5, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (1, 9), (9, 1), (4, 17), (17, 3))
}
fn fun1<T: Tt>(j: &J) -> impl Fn(T) -> T {
    let w = j.s("fn").to_string();
    let k = j.opt("x").map(|x| T::from_j(x)).unwrap_or(T::zero());
    move |x: T| match w.as_str() {
        "id" => x,
        "neg" => -x,
        "lmul" => k.clone() * x,
        "rmul" => x * k.clone(),
        "addc" => x + k.clone(),
        "const" => k.clone(),
        _ => panic!("harness: function {w}"),
    }
}
fn fun2<T: Tt>(j: &J) -> impl Fn(T, T) -> T {
    let w = j.s("fn").to_string();
    move |x: T, y: T| match w.as_str() {
        "fst" => x,
        "snd" => y,
        "sub" => x - y,
        "rsub" => y - x,
        "mul" => x * y,
        "rmul" => y * x,
        _ => panic!("harness: function {w}"),
    }
}
/// The entries of a generator given by a formula.
fn lin<T: Tt>(j: &J) -> impl Fn(usize, usize) -> T {
    let p: Vec<usize> = j.a("p").iter().map(|x| x.us()).collect();
    move |r, c| T::from_j(&ji((p[0] * (r % 1009) + p[1] * (c % 1013) + p[2]) % p[3]))
}
/// A size or an index; a pair stands for hi * 2^30 + lo.
fn big(j: &J) -> usize {
    match j {
        J::Arr(a) => (a[0].us() << 30) + a[1].us(),
        _ => j.us(),
    }
}
fn dim(j: &J, k: &str) -> usize {
    big(j.get(k))
}
/// A size, written like those of the event.
fn size(e: &J, n: usize) -> J {
    match e.opt("big") {
        Some(_) => J::Arr(vec![ji(n >> 30), ji(n & ((1 << 30) - 1))]),
        None => ji(n),
    }
}
fn f<'a>(j: &'a J) -> &'a str {
    j.opt("f").map(|f| f.str()).unwrap_or("")
}
fn ji(i: usize) -> J {
    J::from_int(i as i128)
}

fn mx<'a, T: Tt>(s: &'a S<T>, j: &J, lg: &Rc<Log>) -> BM<'a, T> {
    let a = |k: &str| mx(s, j.get(k), lg);
    let reg = |k: &str| &s.m[j.get(k).u("i")];
    let id = j.opt("id").map(|i| i.int()).unwrap_or(0);
    match (j.s("n"), f(j)) {
        ("m", "ref") => bm(&s.m[j.u("i")]),
        ("m", "wref") => bm((&s.m[j.u("i")]).wrap()),
        ("m", "own") => bm(s.m[j.u("i")].clone()),
        ("arr", w) => array(j.u("r"), j.u("c"), &table(j.get("v")), w == "w"),
        ("user", _) => bm(UserM(table(j.get("v")), j.u("r"), j.u("c"))),
        ("gen", _) => {
            let (t, lg) = (table::<T>(j.get("v")), lg.clone());
            bm(make_matrix_expr(j.u("r"), j.u("c"), move |r, c| {
                lg.g.borrow_mut().push(J::Arr(vec![J::Int(id), ji(r), ji(c)]));
                t.get(r).and_then(|t| t.get(c)).cloned().unwrap_or(T::zero())
            }))
        }
        ("lin" | "hlin", _) => {
            let (p, lg) = (lin::<T>(j), lg.clone());
            bm(make_matrix_expr(dim(j, "r"), dim(j, "c"), move |r, c| {
                lg.g.borrow_mut().push(J::Arr(vec![J::Int(id), ji(r), ji(c)]));
                p(r, c)
            }))
        }
        ("eye", _) => bm(DMatrix::<T>::eye(dim(j, "r"))),
        ("zeros", _) => bm(DMatrix::<T>::zeros(dim(j, "r"), dim(j, "c"))),
        ("ones", _) => bm(DMatrix::<T>::ones(dim(j, "r"), dim(j, "c"))),
        ("same", _) => bm(DMatrix::<T>::same(dim(j, "r"), dim(j, "c"), T::from_j(j.get("x")))),
        ("mul", _) => bm(&s.m[j.u("a")] * &s.m[j.u("b")]),
        ("vdiag", "m") => bm(s.v[j.get("a").u("i")].diag()),
        ("vdiag", _) => bm(vx(s, j.get("a"), lg).wrap().diag()),
        ("add", "m") => bm(reg("a") + a("b")),
        ("add", _) => bm(a("a").wrap() + a("b")),
        ("sub", "m") => bm(reg("a") - a("b")),
        ("sub", _) => bm(a("a").wrap() - a("b")),
        ("mule", "m") => bm(reg("a").mul_elemwise(a("b"))),
        ("mule", _) => bm(a("a").wrap().mul_elemwise(a("b"))),
        ("dive", "m") => T::mdivm(reg("a"), a("b")),
        ("dive", _) => T::mdiv(a("a"), a("b")),
        ("t", "m") => bm(reg("a").t()),
        ("t", _) => bm(a("a").wrap().t()),
        ("h", "m") => bm(reg("a").h()),
        ("h", _) => bm(a("a").wrap().h()),
        ("wrap", _) => bm(a("a").wrap().wrap()),
        ("map", _) => {
            let (g, lg) = (fun1::<T>(j), lg.clone());
            bm(a("a").wrap().map(move |x| {
                lg.m.borrow_mut().push(J::Arr(vec![J::Int(id), x.to_j()]));
                g(x)
            }))
        }
        ("zip", _) => {
            let (g, lg) = (fun2::<T>(j), lg.clone());
            bm(a("a").wrap().zip(a("b")).map(move |(x, y)| {
                lg.z.borrow_mut().push(J::Arr(vec![J::Int(id), x.to_j(), y.to_j()]));
                g(x, y)
            }))
        }
        o => panic!("harness: matrix node {o:?}"),
    }
}
fn vx<'a, T: Tt>(s: &'a S<T>, j: &J, lg: &Rc<Log>) -> BV<'a, T> {
    let a = |k: &str| vx(s, j.get(k), lg);
    let reg = |k: &str| &s.v[j.get(k).u("i")];
    let id = j.opt("id").map(|i| i.int()).unwrap_or(0);
    match (j.s("n"), f(j)) {
        ("v", "ref") => bv(&s.v[j.u("i")]),
        ("v", "wref") => bv((&s.v[j.u("i")]).wrap()),
        ("v", "own") => bv(s.v[j.u("i")].clone()),
        ("slice", w) => {
            let t: &'static [T] = Box::leak(list::<T>(j.get("v")).into_boxed_slice());
            if w == "w" {
                bv(t.wrap())
            } else {
                bv(t)
            }
        }
        ("user", _) => bv(UserV(list(j.get("v")))),
        ("gen", _) => {
            let (t, lg) = (list::<T>(j.get("v")), lg.clone());
            bv(make_vector_expr(t.len(), move |i| {
                lg.g.borrow_mut().push(J::Arr(vec![J::Int(id), ji(i), J::Int(0)]));
                t.get(i).cloned().unwrap_or(T::zero())
            }))
        }
        ("lin" | "hlin", _) => {
            let (p, lg) = (lin::<T>(j), lg.clone());
            bv(make_vector_expr(dim(j, "r"), move |i| {
                lg.g.borrow_mut().push(J::Arr(vec![J::Int(id), ji(i), J::Int(0)]));
                p(i, 0)
            }))
        }
        ("zeros", _) => bv(DVector::<T>::zeros(dim(j, "r"))),
        ("ones", _) => bv(DVector::<T>::ones(dim(j, "r"))),
        ("same", _) => bv(DVector::<T>::same(dim(j, "r"), T::from_j(j.get("x")))),
        ("diag", "m") => bv(s.m[j.get("a").u("i")].diag()),
        ("diag", _) => bv(mx(s, j.get("a"), lg).wrap().diag()),
        ("add", "m") => bv(reg("a") + a("b")),
        ("add", _) => bv(a("a").wrap() + a("b")),
        ("sub", "m") => bv(reg("a") - a("b")),
        ("sub", _) => bv(a("a").wrap() - a("b")),
        ("mule", "m") => bv(reg("a").mul_elemwise(a("b"))),
        ("mule", _) => bv(a("a").wrap().mul_elemwise(a("b"))),
        ("dive", "m") => T::vdivm(reg("a"), a("b")),
        ("dive", _) => T::vdiv(a("a"), a("b")),
        ("conj", "m") => bv(reg("a").conj()),
        ("conj", _) => bv(a("a").wrap().conj()),
        ("wrap", _) => bv(a("a").wrap().wrap()),
        ("map", _) => {
            let (g, lg) = (fun1::<T>(j), lg.clone());
            bv(a("a").wrap().map(move |x| {
                lg.m.borrow_mut().push(J::Arr(vec![J::Int(id), x.to_j()]));
                g(x)
            }))
        }
        ("zip", _) => {
            let (g, lg) = (fun2::<T>(j), lg.clone());
            bv(a("a").wrap().zip(a("b")).map(move |(x, y)| {
                lg.z.borrow_mut().push(J::Arr(vec![J::Int(id), x.to_j(), y.to_j()]));
                g(x, y)
            }))
        }
        o => panic!("harness: vector node {o:?}"),
    }
}

/// What a stored matrix holds, by size queries and indexing; and whether all
/// other ways of reading it agree.
fn mobs<T: Tt>(m: &DMatrix<T>) -> (J, bool) {
    let (r, c) = (m.num_rows(), m.num_cols());
    let mut ok = (&m).num_rows() == r && (&m).num_cols() == c;
    let rows: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|k| m[[i, k]].clone()).collect()).collect();
    for i in 0..r {
        for k in 0..c {
            ok &= m.entry(i, k) == rows[i][k] && (&m).entry(i, k) == rows[i][k];
        }
    }
    ok &= UserM(rows.clone(), r, c).eval() == *m && m.clone() == *m;
    let v = rows.iter().map(|r| J::Arr(r.iter().map(|x| x.to_j()).collect())).collect();
    (J::obj(vec![("r", ji(r)), ("c", ji(c)), ("v", J::Arr(v))]), ok)
}
fn vobs<T: Tt>(v: &DVector<T>) -> (J, bool) {
    let n = v.len();
    let mut ok = (&v).len() == n && v.is_empty() == (n == 0) && (&v).is_empty() == (n == 0);
    let x: Vec<T> = (0..n).map(|i| v[i].clone()).collect();
    for i in 0..n {
        ok &= v.entry(i) == x[i] && (&v).entry(i) == x[i];
    }
    ok &= UserV(x.clone()).eval() == *v && v.clone() == *v;
    (J::Arr(x.iter().map(|x| x.to_j()).collect()), ok)
}
fn both(r: (J, bool)) -> J {
    J::obj(vec![("obs", r.0), ("eqok", J::Bool(r.1))])
}

impl<T: Tt> S<T> {
    fn exec_lazy(&mut self, e: &J) -> J {
        let lg = Rc::new(Log::default());
        let (mut f, built);
        match e.s("op") {
            "meval" => {
                let x = mx(self, e.get("x"), &lg);
                let sz = (x.num_rows(), x.num_cols());
                built = lg.count();
                let m = x.eval();
                let calls = lg.obj();
                f = vec![("sz", J::Arr(vec![ji(sz.0), ji(sz.1)])), ("calls", calls)];
                self.m[e.u("d")] = m;
                let o = mobs(&self.m[e.u("d")]);
                f.extend([("obs", o.0), ("eqok", J::Bool(o.1))]);
            }
            "veval" => {
                let x = vx(self, e.get("x"), &lg);
                let sz = (x.len(), x.is_empty());
                built = lg.count();
                let v = x.eval();
                let calls = lg.obj();
                f = vec![("sz", J::Arr(vec![ji(sz.0)])), ("calls", calls)];
                self.v[e.u("d")] = v;
                let o = vobs(&self.v[e.u("d")]);
                f.extend([("obs", o.0), ("eqok", J::Bool(o.1 && sz.1 == (sz.0 == 0)))]);
            }
            "masg" => {
                let mut m = self.m[e.u("d")].clone();
                let x = mx(self, e.get("x"), &lg);
                built = lg.count();
                if e.s("f") == "add" {
                    m += x;
                } else {
                    m -= x;
                }
                f = vec![("calls", lg.obj()), ("rej", J::Bool(false))];
                self.m[e.u("d")] = m;
                let o = mobs(&self.m[e.u("d")]);
                f.extend([("obs", o.0), ("eqok", J::Bool(o.1))]);
            }
            "vasg" => {
                let mut v = self.v[e.u("d")].clone();
                let x = vx(self, e.get("x"), &lg);
                built = lg.count();
                if e.s("f") == "add" {
                    v += x;
                } else {
                    v -= x;
                }
                f = vec![("calls", lg.obj()), ("rej", J::Bool(false))];
                self.v[e.u("d")] = v;
                let o = vobs(&self.v[e.u("d")]);
                f.extend([("obs", o.0), ("eqok", J::Bool(o.1))]);
            }
            "ment" => {
                let x = mx(self, e.get("x"), &lg);
                let sz = J::Arr(vec![ji(x.num_rows()), ji(x.num_cols())]);
                built = lg.count();
                let y = x.entry(e.a("i")[0].us(), e.a("i")[1].us()).to_j();
                f = vec![("sz", sz), ("y", y), ("calls", lg.obj())];
            }
            "vent" => {
                let x = vx(self, e.get("x"), &lg);
                let sz = J::Arr(vec![ji(x.len())]);
                built = lg.count();
                let y = x.entry(e.u("i")).to_j();
                f = vec![("sz", sz), ("y", y), ("calls", lg.obj())];
            }
            o => panic!("harness: unknown lazy op {o}"),
        }
        f.push(("built", ji(built)));
        J::obj(f)
    }
}

/// The index an access uses: `sh` adds a power of two that no storage has.
fn index(e: &J, k: usize) -> usize {
    let i = big(&e.a("i")[k]);
    match e.opt("sh").map(|s| s.arr()[k].int()) {
        Some(s) if s > 0 => i.wrapping_add(1usize << s),
        _ => i,
    }
}

impl<T: Tt> Session for S<T> {
    fn exec(&mut self, e: &J) -> J {
        if e.has("lz") {
            return self.exec_lazy(e);
        }
        let lg = Rc::new(Log::default());
        let d = e.opt("d").map(|d| d.us()).unwrap_or(0);
        match e.s("op") {
            "mload" => {
                let (t, r, c) = (table::<T>(e.get("v")), e.u("r"), e.u("c"));
                self.m[d] = make_matrix_expr(r, c, |i, k| t[i][k].clone()).eval();
                both(mobs(&self.m[d]))
            }
            "vload" => {
                self.v[d] = list::<T>(e.get("v")).as_slice().eval();
                both(vobs(&self.v[d]))
            }
            "mclone" => {
                self.m[d] = self.m[e.u("a")].clone();
                both(mobs(&self.m[d]))
            }
            "meval" => {
                let x = mx(self, e.get("x"), &lg);
                let (r, c) = (x.num_rows(), x.num_cols());
                let ent: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|k| x.entry(i, k)).collect()).collect();
                let m = match f(e) {
                    "ee" => x.eval().eval(),
                    "we" => x.wrap().eval().wrap().eval(),
                    "re" => (&x.eval()).eval(),
                    _ => x.eval(),
                };
                // sizes and entries of the expression, against the evaluation
                let ok = m.num_rows() == r && m.num_cols() == c && UserM(ent, r, c).eval() == m;
                self.m[d] = m;
                let o = mobs(&self.m[d]);
                both((o.0, o.1 && ok))
            }
            "veval" => {
                let x = vx(self, e.get("x"), &lg);
                let n = x.len();
                let emp = x.is_empty() == (n == 0);
                let ent: Vec<T> = (0..n).map(|i| x.entry(i)).collect();
                let v = match f(e) {
                    "ee" => x.eval().eval(),
                    "we" => x.wrap().eval().wrap().eval(),
                    "re" => (&x.eval()).eval(),
                    _ => x.eval(),
                };
                let ok = v.len() == n && UserV(ent).eval() == v;
                self.v[d] = v;
                let o = vobs(&self.v[d]);
                both((o.0, o.1 && ok && emp))
            }
            "ment" => {
                let x = mx(self, e.get("x"), &lg);
                let sz = J::Arr(vec![size(e, x.num_rows()), size(e, x.num_cols())]);
                J::obj(vec![("sz", sz), ("y", x.entry(index(e, 0), index(e, 1)).to_j())])
            }
            "vent" => {
                let x = vx(self, e.get("x"), &lg);
                let sz = J::Arr(vec![size(e, x.len())]);
                J::obj(vec![("sz", sz), ("y", x.entry(dim(e, "i")).to_j())])
            }
            "mzip" | "vzip" => {
                let pair = |(x, y): (T, T)| J::Arr(vec![x.to_j(), y.to_j()]);
                let rows = if e.s("op") == "mzip" {
                    let z = mx(self, e.get("x"), &lg).wrap().zip(mx(self, e.get("z"), &lg)).eval();
                    let (r, c) = (z.num_rows(), z.num_cols());
                    (0..r).map(|i| J::Arr((0..c).map(|k| pair(z[[i, k]].clone())).collect())).collect()
                } else {
                    let z = vx(self, e.get("x"), &lg).wrap().zip(vx(self, e.get("z"), &lg)).eval();
                    (0..z.len()).map(|i| pair(z[i].clone())).collect()
                };
                J::obj(vec![("y", J::Arr(rows))])
            }
            "masg" | "vasg" => {
                let add = e.s("f") == "add";
                let (rej, o);
                if e.s("op") == "masg" {
                    let mut m = self.m[d].clone();
                    rej = guarded(|| {
                        let x = mx(self, e.get("x"), &lg);
                        if add {
                            m += x
                        } else {
                            m -= x
                        }
                    })
                    .is_err();
                    self.m[d] = m;
                    o = mobs(&self.m[d]);
                } else {
                    let mut v = self.v[d].clone();
                    rej = guarded(|| {
                        let x = vx(self, e.get("x"), &lg);
                        if add {
                            v += x
                        } else {
                            v -= x
                        }
                    })
                    .is_err();
                    self.v[d] = v;
                    o = vobs(&self.v[d]);
                }
                J::obj(vec![("rej", J::Bool(rej)), ("obs", o.0), ("eqok", J::Bool(o.1))])
            }
            "mset" => {
                self.m[d][[index(e, 0), index(e, 1)]] = T::from_j(e.get("x"));
                both(mobs(&self.m[d]))
            }
            "vset" => {
                self.v[d][index(e, 0)] = T::from_j(e.get("x"));
                both(vobs(&self.v[d]))
            }
            "mget" => {
                let (m, r, c) = (&self.m[e.u("a")], index(e, 0), index(e, 1));
                let y = match f(e) {
                    "ix" => m[[r, c]].clone(),
                    "en" => MatrixExpr::entry(m, r, c),
                    "ow" => <DMatrix<T> as MatrixExpr>::entry(m, r, c),
                    "re" => <&DMatrix<T> as MatrixExpr>::entry(&m, r, c),
                    "wr" => m.wrap().entry(r, c),
                    "ww" => m.clone().wrap().entry(r, c),
                    o => panic!("harness: form {o}"),
                };
                J::obj(vec![("y", y.to_j())])
            }
            "vget" => {
                let (v, i) = (&self.v[e.u("a")], index(e, 0));
                let y = match f(e) {
                    "ix" => v[i].clone(),
                    "ow" => <DVector<T> as VectorExpr>::entry(v, i),
                    "re" => <&DVector<T> as VectorExpr>::entry(&v, i),
                    "wr" => v.wrap().entry(i),
                    "ww" => v.clone().wrap().entry(i),
                    o => panic!("harness: form {o}"),
                };
                J::obj(vec![("y", y.to_j())])
            }
            "dot" => {
                let (a, b) = (&self.v[e.u("a")], &self.v[e.u("b")]);
                let y = if f(e) == "rr" { a * b } else { a.clone() * b.clone() };
                J::obj(vec![("y", y.to_j())])
            }
            "meq" => {
                let (a, b) = (&self.m[e.u("a")], &self.m[e.u("b")]);
                J::obj(vec![("eq", J::Bool(a == b)), ("ne", J::Bool(a != b))])
            }
            "veq" => {
                let (a, b) = (&self.v[e.u("a")], &self.v[e.u("b")]);
                J::obj(vec![("eq", J::Bool(a == b)), ("ne", J::Bool(a != b))])
            }
            "dump" => {
                let m: Vec<_> = self.m.iter().map(|m| mobs(m)).collect();
                let v: Vec<_> = self.v.iter().map(|v| vobs(v)).collect();
                let ok = m.iter().all(|x| x.1) && v.iter().all(|x| x.1);
                J::obj(vec![
                    ("ms", J::Arr(m.into_iter().map(|x| x.0).collect())),
                    ("vs", J::Arr(v.into_iter().map(|x| x.0).collect())),
                    ("eqok", J::Bool(ok)),
                ])
            }
            o => panic!("harness: unknown op {o}"),
        }
    }
}

fn mk<T: Tt>(e: &J) -> Box<dyn Session> {
    Box::new(S::<T> {
        m: (0..e.u("nm")).map(|_| UserM(vec![], 0, 0).eval()).collect(),
        v: (0..e.u("nv")).map(|_| UserV(vec![]).eval()).collect(),
    })
}

fn main() {
    main_loop(|e| match e.s("impl") {
        "i32" => mk::<i32>(e),
        "i64" => mk::<i64>(e),
        "f64" => mk::<f64>(e),
        "free" => mk::<Free>(e),
        "gf2" => mk::<Gf<2>>(e),
        "gf7" => mk::<Gf<7>>(e),
        "rat" => mk::<Rat>(e),
        "m2" => mk::<M2>(e),
        "gi" => mk::<Gi>(e),
        "cfree" => mk::<Complex<Free>>(e),
        "ci64" => mk::<Complex<i64>>(e),
        o => panic!("harness: unknown impl {o}"),
    })
}
