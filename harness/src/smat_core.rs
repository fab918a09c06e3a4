// Statically sized matrices and vectors: included by the programs smat and smatdim.
use conform::*;
use magnesia::algebra::{Conj, One, Ring, Zero};
use magnesia::linalg::{SMatrix, SVector};
use std::fmt::Debug;

trait Tt: Sc + Ring + Conj + Debug {}
impl<T: Sc + Ring + Conj + Debug> Tt for T {}

fn mlit<T: Tt, const R: usize, const C: usize>(j: &J) -> SMatrix<T, R, C> {
    let rows = j.arr();
    assert!(rows.len() == R, "harness: rows");
    let mut r = 0;
    SMatrix::from([(); R].map(|_| {
        let row = rows[r].arr();
        assert!(row.len() == C, "harness: columns");
        r += 1;
        let mut c = 0;
        [(); C].map(|_| {
            c += 1;
            T::from_j(&row[c - 1])
        })
    }))
}
fn vlit<T: Tt, const D: usize>(j: &J) -> SVector<T, D> {
    let a = j.arr();
    assert!(a.len() == D, "harness: dimension");
    let mut i = 0;
    SVector::from([(); D].map(|_| {
        i += 1;
        T::from_j(&a[i - 1])
    }))
}

/// Static matrices have no accessors.  A first guess of the entries comes
/// from the debug output or else from products with unit vectors; the guess
/// counts only if the matrix made of it is equal to the one observed.
fn mobs<T: Tt, const R: usize, const C: usize>(m: &SMatrix<T, R, C>) -> (J, bool) {
    let text = format!("{m:?}").replace(".0", "");
    let text = text.trim_start_matches("SMatrix(").trim_end_matches(')');
    let shaped = |j: &J| match j {
        J::Arr(a) if a.len() == R => a.iter().all(|r| matches!(r, J::Arr(b) if b.len() == C)),
        _ => false,
    };
    if let Some(j) = J::try_parse(text).filter(shaped) {
        if let Ok(true) = guarded(|| mlit::<T, R, C>(&j) == *m) {
            return (j, true);
        }
    }
    let mut rows = vec![vec![J::Null; C]; R];
    for c in 0..C {
        let mut i = 0;
        let e = SVector::from([(); C].map(|_| {
            i += 1;
            if i - 1 == c {
                T::one()
            } else {
                T::zero()
            }
        }));
        let col = m * &e;
        for r in 0..R {
            rows[r][c] = col.0[r].to_j();
        }
    }
    let j = J::Arr(rows.into_iter().map(J::Arr).collect());
    let ok = mlit::<T, R, C>(&j) == *m;
    (j, ok)
}
fn vobs<T: Tt, const D: usize>(v: &SVector<T, D>) -> (J, bool) {
    let j = J::Arr(v.0.iter().map(|x| x.to_j()).collect());
    let ok = vlit::<T, D>(&j) == *v;
    (j, ok)
}

struct S<T: Tt, const L: usize, const M: usize, const N: usize> {
    a: Vec<SMatrix<T, L, M>>,
    b: Vec<SMatrix<T, M, N>>,
    c: Vec<SMatrix<T, L, N>>,
    q: Vec<SMatrix<T, N, N>>,
    u: Vec<SVector<T, L>>,
    v: Vec<SVector<T, M>>,
}

fn both(r: (J, bool)) -> J {
    J::obj(vec![("obs", r.0), ("eqok", J::Bool(r.1))])
}

/// add, sub, eq: common to matrices and vectors
macro_rules! linear {
    ($e:expr, $r:expr, $obs:path, $op:expr, $f:expr) => {{
        let a = || $r[$e.u("a")].clone();
        let b = || $r[$e.u("b")].clone();
        match ($op, $f) {
            ("eq", _) => {
                let (x, y) = (&$r[$e.u("a")], &$r[$e.u("b")]);
                return J::obj(vec![("eq", J::Bool(x == y)), ("ne", J::Bool(x != y))]);
            }
            ("zero", _) => $r[$e.u("d")] = Zero::zero(),
            ("clone", _) => $r[$e.u("d")] = a(),
            ("add", "vv") => $r[$e.u("d")] = a() + b(),
            ("add", "vr") => {
                let y = b();
                $r[$e.u("d")] = a() + &y;
                if $e.u("d") != $e.u("b") {
                    $r[$e.u("b")] = y;
                }
            }
            ("add", "av") => {
                let y = b();
                $r[$e.u("d")] += y
            }
            ("add", "ar") => {
                let y = b();
                $r[$e.u("d")] += &y;
                if $e.u("d") != $e.u("b") {
                    $r[$e.u("b")] = y;
                }
            }
            ("sub", "vv") => $r[$e.u("d")] = a() - b(),
            ("sub", "vr") => {
                let y = b();
                $r[$e.u("d")] = a() - &y;
                if $e.u("d") != $e.u("b") {
                    $r[$e.u("b")] = y;
                }
            }
            ("sub", "av") => {
                let y = b();
                $r[$e.u("d")] -= y
            }
            ("sub", "ar") => {
                let y = b();
                $r[$e.u("d")] -= &y;
                if $e.u("d") != $e.u("b") {
                    $r[$e.u("b")] = y;
                }
            }
            _ => panic!("harness: unknown {} {}", $op, $f),
        }
        both($obs(&$r[$e.u("d")]))
    }};
}
fn mat_ops<T: Tt, const R: usize, const C: usize>(
    r: &mut [SMatrix<T, R, C>],
    q: &[SMatrix<T, C, C>],
    e: &J,
    op: &str,
    f: &str,
) -> J {
    let d = e.opt("d").map(|d| d.us()).unwrap_or(0);
    match (op, f) {
        ("load", _) => r[d] = mlit(e.get("v")),
        ("one", _) => r[d] = One::one(),
        ("neg", _) => r[d] = -r[e.u("a")].clone(),
        ("conj", _) => r[d] = r[e.u("a")].clone().conj(),
        ("mulas", f) => {
            let y = q[e.u("b")].clone();
            if f == "av" {
                r[d] *= y;
            } else {
                r[d] *= &y;
            }
        }
        _ => return linear!(e, r, mobs, op, f),
    }
    both(mobs(&r[d]))
}
fn vec_ops<T: Tt, const D: usize>(r: &mut [SVector<T, D>], e: &J, op: &str, f: &str) -> J {
    match (op, f) {
        ("load", _) => {
            r[e.u("d")] = vlit(e.get("v"));
            both(vobs(&r[e.u("d")]))
        }
        ("scale", f) => {
            let x = T::from_j(e.get("x"));
            match f {
                "vv" => r[e.u("d")] = r[e.u("a")].clone() * x,
                "vr" => r[e.u("d")] = r[e.u("a")].clone() * &x,
                "av" => r[e.u("d")] *= x,
                "ar" => r[e.u("d")] *= &x,
                _ => panic!("harness: form {f}"),
            }
            both(vobs(&r[e.u("d")]))
        }
        ("set", _) => {
            r[e.u("d")][e.u("i")] = T::from_j(e.get("x"));
            both(vobs(&r[e.u("d")]))
        }
        ("get", _) => J::obj(vec![("y", r[e.u("a")][e.u("i")].to_j())]),
        ("dot", f) => {
            let (x, y) = (r[e.u("a")].clone(), r[e.u("b")].clone());
            let s = if f == "vv" { x * y } else { x * &y };
            J::obj(vec![("y", s.to_j())])
        }
        ("iter", f) => {
            let x = &mut r[e.u("a")];
            let y: Vec<J> = match f {
                "v" => x.clone().into_iter().map(|t| t.to_j()).collect(),
                "r" => (&*x).into_iter().map(|t| t.to_j()).collect(),
                "m" => x.into_iter().map(|t| t.to_j()).collect(),
                "i" => (0..x.0.len()).map(|i| x[i].to_j()).collect(),
                _ => panic!("harness: form {f}"),
            };
            J::obj(vec![("y", J::Arr(y))])
        }
        _ => linear!(e, r, vobs, op, f),
    }
}

impl<T: Tt, const L: usize, const M: usize, const N: usize> Session for S<T, L, M, N> {
    fn exec(&mut self, e: &J) -> J {
        let op = e.s("op");
        let f = e.opt("f").map(|f| f.str()).unwrap_or("");
        match op {
            "dump" => {
                let mut ok = true;
                let mut o = vec![];
                macro_rules! dump {
                    ($n:expr, $r:expr, $obs:path) => {{
                        let mut v = vec![];
                        for x in &$r {
                            let (j, b) = $obs(x);
                            ok &= b;
                            v.push(j);
                        }
                        o.push(($n, J::Arr(v)));
                    }};
                }
                dump!("a", self.a, mobs);
                dump!("b", self.b, mobs);
                dump!("c", self.c, mobs);
                dump!("q", self.q, mobs);
                dump!("u", self.u, vobs);
                dump!("v", self.v, vobs);
                return J::obj(vec![("regs", J::obj(o)), ("eqok", J::Bool(ok))]);
            }
            "mul" => {
                let d = e.u("d");
                self.c[d] = if f == "vv" {
                    self.a[e.u("a")].clone() * self.b[e.u("b")].clone()
                } else {
                    &self.a[e.u("a")] * &self.b[e.u("b")]
                };
                return both(mobs(&self.c[d]));
            }
            "qq" => {
                let d = e.u("d");
                self.q[d] = &self.q[e.u("a")] * &self.q[e.u("b")];
                return both(mobs(&self.q[d]));
            }
            "mv" => {
                let d = e.u("d");
                self.u[d] = &self.a[e.u("a")] * &self.v[e.u("b")];
                return both(vobs(&self.u[d]));
            }
            _ => {}
        }
        match e.s("g") {
            "a" => mat_ops(&mut self.a, &[], e, op, f),
            "b" => mat_ops(&mut self.b, &self.q, e, op, f),
            "c" => mat_ops(&mut self.c, &self.q, e, op, f),
            "q" => {
                let q = self.q.clone();
                mat_ops(&mut self.q, &q, e, op, f)
            }
            "u" => vec_ops(&mut self.u, e, op, f),
            "v" => vec_ops(&mut self.v, e, op, f),
            g => panic!("harness: group {g}"),
        }
    }
}
fn mk<T: Tt, const L: usize, const M: usize, const N: usize>(e: &J) -> Box<dyn Session> {
    let n = e.u("nr");
    Box::new(S::<T, L, M, N> {
        a: (0..n).map(|_| Zero::zero()).collect(),
        b: (0..n).map(|_| Zero::zero()).collect(),
        c: (0..n).map(|_| Zero::zero()).collect(),
        q: (0..n).map(|_| Zero::zero()).collect(),
        u: (0..n).map(|_| Zero::zero()).collect(),
        v: (0..n).map(|_| Zero::zero()).collect(),
    })
}
macro_rules! dims {
    ($t:ty, $e:expr, $d:expr, $( ($l:literal, $m:literal, $n:literal) ),*) => {
        match $d {
            $( ($l, $m, $n) => mk::<$t, $l, $m, $n>($e), )*
            d => panic!("harness: dimensions {d:?}"),
        }
    };
}
