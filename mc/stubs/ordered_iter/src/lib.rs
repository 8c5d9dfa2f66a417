//! Stand-in for the `ordered_iter` crate, which cannot be fetched here. `stable_bst` only implements
//! its two marker traits; rustfst never uses them.
pub trait OrderedMapIterator: Iterator {
    type Key;
    type Val;
}
pub trait OrderedSetIterator: Iterator {}
