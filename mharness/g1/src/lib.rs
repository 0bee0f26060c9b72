//! Instantiations of the sequential engine for some key and value layouts; separate crates compile in parallel.
#[allow(unused_imports)]
use mcore::{layouts::*, seq::*, seqrun::*, types::*};
#[allow(unused_imports)]
use std::hash::RandomState;

pub fn run(c: &SCase) -> Option<SInfo> {
    Some(match (c.kind.as_str(), c.layout) {
        ("map", 8) => run_map::<String, VStr, RandomState>(c),
        ("map", 9) => run_map::<KBox, VBox, Bh>(c),
        ("map", 2) => run_map::<K8, V0, Bh>(c),
        _ => return None,
    })
}
