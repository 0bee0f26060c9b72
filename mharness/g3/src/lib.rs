//! Instantiations of the sequential engine for some key and value layouts; separate crates compile in parallel.
#[allow(unused_imports)]
use mcore::{layouts::*, seq::*, seqrun::*, types::*};
#[allow(unused_imports)]
use std::hash::RandomState;

pub fn run(c: &SCase) -> Option<SInfo> {
    Some(match (c.kind.as_str(), c.layout) {
        ("map", 7) => run_map::<KBig, VBig, Bh>(c),
        ("map", 10) => run_map::<K3, V5, Bh>(c),
        ("map", 11) => run_map::<K8, VA4096, Bh>(c),
        ("map", 12) => run_map::<K0, V8, Bh>(c),
        _ => return None,
    })
}
