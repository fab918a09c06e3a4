//! Suite `ackley`: the test function at rational points.
use conform::*;
use magnesia::optimize::test_functions::ackley;

struct S;
impl Session for S {
    fn exec(&mut self, e: &J) -> J {
        let d = e.i("d") as f64;
        let f = ackley((e.i("a") as f64 / d) as f32, (e.i("b") as f64 / d) as f32) as f64;
        let round = |s: f64| {
            let r = (f * s).round();
            if r.abs() < 1e9 {
                J::Int(r as i64)
            } else {
                J::Int(1_000_000_007)
            }
        };
        J::obj(vec![
            ("q", round(1e6)),
            ("u", round(16384.0)),
            ("pos", J::Bool(f > 0.0)),
            ("fin", J::Bool(f.is_finite())),
        ])
    }
}

fn main() {
    main_loop(|_| Box::new(S));
}
