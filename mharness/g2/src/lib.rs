//! Instantiations of the sequential engine for some key and value layouts; separate crates compile in parallel.
#[allow(unused_imports)]
use mcore::{layouts::*, seq::*, seqrun::*, types::*};
#[allow(unused_imports)]
use std::hash::RandomState;

pub fn run(c: &SCase) -> Option<SInfo> {
    Some(match (c.kind.as_str(), c.layout) {
        ("map", 3) => run_map::<K16, V16, Bh>(c),
        ("map", 4) => run_map::<K0, V0, Bh>(c),
        ("map", 5) => run_map::<K128, V128, Bh>(c),
        ("map", 6) => run_map::<KA64, VA128, Bh>(c),
        _ => return None,
    })
}
