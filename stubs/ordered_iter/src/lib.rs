//! Stand-in for the `ordered_iter` crate (unreachable offline). stable_bst's default feature
//! implements these two marker traits for its iterators; rustfst uses neither of them.
pub trait OrderedMapIterator: Iterator {
    type Key;
    type Val;
}
pub trait OrderedSetIterator: Iterator {}
