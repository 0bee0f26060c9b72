//! Instantiations of the sequential engine for some key and value layouts; separate crates compile in parallel.
#[allow(unused_imports)]
use mcore::{layouts::*, seq::*, seqrun::*, types::*};
#[allow(unused_imports)]
use std::hash::RandomState;

pub fn run(c: &SCase) -> Option<SInfo> {
    Some(match (c.kind.as_str(), c.layout) {
        ("set", 0) => run_set::<Key, Bh>(c),
        ("set", 1) => run_set::<Key, RandomState>(c),
        ("set", 2) => run_set::<K8, Bh>(c),
        ("set", 3) => run_set::<K0, Bh>(c),
        ("set", 4) => run_set::<String, RandomState>(c),
        ("set", 5) => run_set::<KA64, Bh>(c),
        ("set", 6) => run_set::<KBig, Bh>(c),
        _ => return None,
    })
}
