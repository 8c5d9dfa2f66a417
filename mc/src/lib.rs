pub mod aut;
pub mod delayed;
pub mod harness;
pub mod ops;
pub mod semi;
pub use aut::*;
pub use harness::*;
pub use ops::{bfs, flags_ok, Truth};
pub use semi::*;
/// Turns an `anyhow` result into a string error.
pub fn ok<T>(what: &str, r: anyhow::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed: {e:#}"))
}
use rustfst::prelude::*;
/// The same machine with its flags as built, and with all flags computed (algorithms branch on them).
pub fn with_flags<W: Semiring>(f: &VectorFst<W>) -> Vec<VectorFst<W>> {
    let mut g = f.clone();
    g.compute_and_update_properties_all().expect("compute properties");
    vec![f.clone(), g]
}
