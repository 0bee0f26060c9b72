//! Instantiations of the sequential engine for some key and value layouts; separate crates compile in parallel.
#[allow(unused_imports)]
use mcore::{layouts::*, seq::*, seqrun::*, types::*};
#[allow(unused_imports)]
use std::hash::RandomState;

pub fn run(c: &SCase) -> Option<SInfo> {
    Some(match (c.kind.as_str(), c.layout) {
        ("map", 0) => run_map::<Key, Val, Bh>(c),
        ("map", 1) => run_map::<Key, Val, RandomState>(c),
        _ => return None,
    })
}
