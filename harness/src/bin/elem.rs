//! Suite `elem`: elementary functions at arguments with exact values.
use conform::*;
use magnesia::algebra::Complex;
use magnesia::functions::*;
use std::f64::consts::{LN_2, PI};

/// The argument described by a record of the specification, in f64.
fn arg(j: &J) -> f64 {
    let q = |k: &str| {
        let a = j.a(k);
        a[0].int() as f64 / a[1].int() as f64
    };
    match j.s("k") {
        "rat" => q("v"),
        "ln" => f64::ln(q("v")),
        "ang" => f64::atan2(q("s"), q("c")) + 2.0 * PI * j.i("w") as f64,
        "p2" => j.i("n") as f64 * LN_2,
        "two" => f64::powi(2.0, j.i("n") as i32),
        "nz" => -0.0,
        "sp" => match j.s("v") {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            _ => f64::NEG_INFINITY,
        },
        k => panic!("harness: argument {k}"),
    }
}

/// The remainders of the power series with the coefficients `c`.
fn series(e: &J, z: Complex<f64>, v: Complex<f64>, eps: f64) -> J {
    let c: Vec<f64> = e.a("c").iter().map(|q| q.arr()[0].int() as f64 / q.arr()[1].int() as f64).collect();
    let r = f64::hypot(z.re, z.im);
    // dividing by z: conjugate over squared norm, in an order that cannot overflow
    let over = |w: (f64, f64)| {
        let (a, b) = (z.re / r, z.im / r);
        let (x, y) = (w.0 / r, w.1 / r);
        (x * a + y * b, y * a - x * b)
    };
    let rem = e
        .a("lv")
        .iter()
        .map(|j| {
            let j = j.int() as usize;
            let (mut w, mut p) = ((v.re, v.im), (1.0, 0.0));
            let mut large: f64 = 0.0;
            for (i, c) in c.iter().enumerate().take(j + 1) {
                if i < j {
                    w = (w.0 - c * p.0, w.1 - c * p.1);
                }
                large = large.max(c.abs() * r.powi(i as i32));
                p = (p.0 * z.re - p.1 * z.im, p.0 * z.im + p.1 * z.re);
            }
            for _ in 0..j {
                w = over(w);
                large /= r;
            }
            let gap = if e.get("odd") == &J::Bool(true) && c[j] != 0.0 { 2 } else { 1 };
            let tol = 16.0 * eps * large.max(f64::from(u8::from(j == 0))) + 2.0 * r.powi(gap);
            J::Arr(vec![snap_abs(w.0 * 48.0, tol * 48.0), snap_abs(w.1 * 48.0, tol * 48.0)])
        })
        .collect();
    J::obj(vec![("rem", J::Arr(rem))])
}

macro_rules! suite {
    ($name:ident, $t:ty, $tol:expr) => {
        struct $name;
        impl $name {
            fn real(f: &str, form: &str, x: $t) -> $t {
                match f {
                    "abs" if form == "r" => Abs::abs(&x),
                    "abs" => Abs::abs(x),
                    "sqrt" => Sqrt::sqrt(&x),
                    "exp" => Exp::exp(x),
                    "ln" => Ln::ln(x),
                    "sin" => Sin::sin(x),
                    "cos" => Cos::cos(x),
                    "tan" => Tan::tan(x),
                    "asin" => Asin::asin(x),
                    "sinh" => Sinh::sinh(x),
                    "cosh" => Cosh::cosh(x),
                    _ => panic!("harness: function {f}"),
                }
            }
            fn cplx(f: &str, z: Complex<$t>) -> Complex<$t> {
                match f {
                    "exp" => Exp::exp(z),
                    "sin" => Sin::sin(z),
                    "cos" => Cos::cos(z),
                    "tan" => Tan::tan(z),
                    "sinh" => Sinh::sinh(z),
                    "cosh" => Cosh::cosh(z),
                    "ln" => Ln::ln(z),
                    "expln" => Exp::exp(Ln::ln(z)),
                    _ => panic!("harness: function {f}"),
                }
            }
        }
        impl Session for $name {
            fn exec(&mut self, e: &J) -> J {
                if e.s("op") == "series" {
                    let (f, real) = (e.s("f"), e.get("u").arr().len() == 1);
                    let h = f64::powi(2.0, -(e.i("n") as i32));
                    let u = e.a("u");
                    let im = if real { 0.0 } else { u[1].int() as f64 * h };
                    let z = Complex::new(u[0].int() as f64 * h, im);
                    let x = z.re as $t;
                    let v = if real {
                        let v = match f {
                            "ln1p" => Ln::ln(1.0 + x),
                            "sqrt1p" => Sqrt::sqrt(&(1.0 + x)),
                            "atan" => Atan2::atan2(x, 1.0),
                            _ => Self::real(f, "v", x),
                        };
                        Complex::new(v as f64, 0.0)
                    } else {
                        let z = Complex::new(x, z.im as $t);
                        let one = Complex::new(1.0 as $t, 0.0);
                        let v = match f {
                            "ln1p" => Ln::ln(one + z),
                            "sqrt1p" => Sqrt::sqrt(&(one + z)),
                            _ => Self::cplx(f, z),
                        };
                        Complex::new(v.re as f64, v.im as f64)
                    };
                    return series(e, z, v, <$t>::EPSILON as f64);
                }
                let den = e.i("den") as f64;
                let scaled = |v: f64, d: f64| snap_abs(v * d, $tol * (v * d).abs().max(d));
                let near = |v: f64| scaled(v, 1.0);
                let in_range = |v: f64, m: f64| J::Bool(v.abs() <= m + 4.0 * <$t>::EPSILON as f64);
                if e.s("op") == "cplx" {
                    let f = e.s("f");
                    let (x, y) = (arg(e.get("x")), arg(e.get("y")));
                    let sh = f64::powi(2.0, e.opt("sh").map(|k| k.int()).unwrap_or(0) as i32);
                    let z = Self::cplx(f, Complex::new((x * sh) as $t, (y * sh) as $t));
                    let (re, im) = (z.re as f64, z.im as f64);
                    if f == "ln" {
                        let r = f64::hypot(x, y);
                        return J::obj(vec![
                            ("norm", scaled((2.0 * (re - sh.ln())).exp(), den * den)),
                            ("dir", J::Arr(vec![scaled(r * im.cos(), den), scaled(r * im.sin(), den)])),
                            ("inrange", in_range(im, PI)),
                            ("sg", J::Int(if im > 0.0 { 1 } else if im < 0.0 { -1 } else { 0 })),
                        ]);
                    }
                    let sc = e.opt("sc").map(|k| k.int()).unwrap_or(0);
                    // in two steps: the scale itself may be out of range
                    let over = |v: f64| v / sh / f64::powi(2.0, (sc / 2) as i32) / f64::powi(2.0, (sc - sc / 2) as i32);
                    let (re, im) = (over(re), over(im));
                    let tol = $tol * den * f64::hypot(re, im).max(1.0);
                    return J::obj(vec![("re", snap_abs(re * den, tol)), ("im", snap_abs(im * den, tol)), ("sc", J::Int(sc))]);
                }
                let (v, r) = if e.s("op") == "atan2" {
                    let (y, x) = (arg(e.get("y")), arg(e.get("x")));
                    let r = match (y.is_infinite(), x.is_infinite()) {
                        (true, true) => f64::sqrt(2.0),
                        (false, false) => f64::hypot(y, x),
                        _ => 1.0,
                    };
                    (Atan2::atan2(y as $t, x as $t) as f64, r)
                } else {
                    let f = e.s("f");
                    let form = e.opt("form").map(|f| f.str()).unwrap_or("v");
                    let x = e.get("x");
                    let x = if f == "asin" && x.s("k") == "ang" {
                        x.a("s")[0].int() as f64 / x.a("s")[1].int() as f64
                    } else {
                        arg(x)
                    };
                    (Self::real(f, form, x as $t) as f64, 0.0)
                };
                let cls = if v.is_nan() {
                    "nan"
                } else if v == f64::INFINITY {
                    "inf"
                } else if v == f64::NEG_INFINITY {
                    "-inf"
                } else {
                    "fin"
                };
                let lgden = e.opt("lgden").map(|d| d.int()).unwrap_or(1);
                let asin = e.opt("f").is_some_and(|f| f.str() == "asin");
                J::obj(vec![
                    ("cls", J::st(cls)),
                    ("val", scaled(v, den)),
                    ("sq", scaled(v * v, den)),
                    ("exp", scaled(v.exp(), den)),
                    ("cos", scaled(v.cos(), den)),
                    ("sin", scaled(v.sin(), den)),
                    ("dir", J::Arr(vec![scaled(r * v.cos(), den), scaled(r * v.sin(), den)])),
                    ("sg", J::Int(if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 })),
                    ("lg", near(v.abs().log2() * lgden as f64)),
                    ("lgden", J::Int(lgden)),
                    ("ratio", near(v / LN_2)),
                    ("inrange", in_range(v, if asin { PI / 2.0 } else { PI })),
                ])
            }
        }
    };
}
suite!(F32, f32, 5e-5);
suite!(F64, f64, 2e-11);

fn main() {
    main_loop(|e| match e.s("impl") {
        "f32" => Box::new(F32),
        "f64" => Box::new(F64),
        o => panic!("harness: unknown impl {o}"),
    })
}
