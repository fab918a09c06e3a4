//! Conformance harness: executes programs (JSON lines) on the real library
//! and records what was observed (JSON lines), one output line per input line.
pub mod json;
pub mod run;
pub mod scalars;
pub use json::J;
pub use run::*;
pub use scalars::*;
