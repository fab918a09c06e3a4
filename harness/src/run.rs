//! The interpreter loop shared by all suites.
use crate::json::J;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs `f`; `Err(())` when it panicked.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

/// A session interprets the events of one suite on live library objects.
pub trait Session {
    /// Executes one event; returns the observation (a JSON object whose
    /// fields are added to the event), or panics if the library panics.
    fn exec(&mut self, ev: &J) -> J;
}

/// Reads a program, executes it, writes the trace: every event is written
/// back, with the observed fields added, directly after it was executed, so
/// that a crash or a hang can be attributed to the next event.
pub fn main_loop(make: impl Fn(&J) -> Box<dyn Session> + Sync) {
    // a large stack, for large values of statically sized types
    let end = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || interpret(&make)).expect("harness: thread").join()
    });
    if end.is_err() {
        std::process::exit(101);
    }
}

fn interpret(make: &impl Fn(&J) -> Box<dyn Session>) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = BufReader::new(File::open(&args[1]).expect("harness: program"));
    let mut out = File::create(&args[2]).expect("harness: trace");
    let mut session: Option<Box<dyn Session>> = None;
    let mut line_out = String::new();
    for line in input.lines() {
        let line = line.unwrap();
        let mut ev = J::parse(&line);
        if ev.s("op") == "session" {
            session = Some(make(&ev));
            ev.set("out", J::st("ok"));
        } else {
            let s = session.as_mut().expect("harness: no session");
            match guarded(|| s.exec(&ev)) {
                Ok(J::Obj(fields)) => {
                    ev.set("out", J::st("ok"));
                    for (k, v) in fields {
                        ev.set(&k, v);
                    }
                }
                Ok(_) => unreachable!(),
                Err(()) => ev.set("out", J::st("panic")),
            }
        }
        line_out.clear();
        ev.write(&mut line_out);
        line_out.push('\n');
        out.write_all(line_out.as_bytes()).unwrap();
    }
}

/// xorshift64*: the harness's own random numbers (never the library's).
#[derive(Clone)]
pub struct Rng64(pub u64);
impl Rng64 {
    pub fn next(&mut self) -> u64 {
        let mut x = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        self.0 = x;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
}
