//! Test case: configuration, sequential prelude, per-thread programs, schedule.
use crate::ffi::{RtCfg, Switch};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Act {
    Insert,
    Remove,
    Abort,
    /// by parity of the current value id: even -> insert, odd -> remove
    Parity,
    /// asks to remove an absent entry, which the documentation says panics
    Misuse,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    Get(u32),
    GetKv(u32),
    Contains(u32),
    Insert(u32),
    TryInsert(u32),
    TryInsertWith(u32),
    GetOrInsert(u32),
    GetOrInsertWith(u32),
    Update(u32),
    UpdateOrInsert(u32),
    UpdateOrInsertWith(u32),
    Compute(u32, Act, Act),
    Remove(u32),
    RemoveEntry(u32),
    RemoveIf(u32, u8),
    Clear,
    Retain(u8),
    /// full iteration; the argument is the flavour: 0 iter, 1 keys, 2 values, 3 IntoIterator
    Iter(u8),
    /// insert all of these through `Extend`
    Extend(Vec<u32>),
    /// print the map
    Debug,
    /// create an iterator, take `n` items, run the following op, then exhaust it
    IterAround(u8, Box<Op>),
    CloneMap,
    Len,
    IsEmpty,
    Reserve(u32),
    /// release the held guard (and all references)
    Release,
    Refresh,
    Flush,
    /// re-validate every held reference
    CheckHeld,
    /// run the op under a second, nested guard
    Nested(Box<Op>),
    /// hand the held owned guard and its references to the shared slot
    Give,
    /// take a guard from the shared slot
    Take,
    /// std::thread unpark of another logical thread
    Unpark(u32),
    /// run the op with a panic injected at the n-th call of the site
    Panic(crate::types::Site, u32, Box<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct MapCfg {
    pub blocking: bool,
    pub chunk: usize,
    pub capacity: usize,
    pub hasher: u32,
    pub batch: usize,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum GuardKind {
    /// a fresh guard for every operation
    PerOp,
    /// one local guard held until Release
    Held,
    /// one owned guard held until Release
    Owned,
    /// the one owned guard that all threads of this kind use at the same time, held until all have ended
    Shared,
    /// a fresh pin for every operation
    Pin,
    /// one pin held until Release
    PinHeld,
    /// one pin with an owned guard held until Release
    PinOwned,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Thread {
    pub guard: GuardKind,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub map: MapCfg,
    /// a HashSet is tested instead of a HashMap; key objects take the part of values
    #[serde(default)]
    pub set: bool,
    pub keys: u32,
    pub prelude: Vec<Op>,
    pub threads: Vec<Thread>,
    pub rt: RtCfg,
    #[serde(default)]
    pub switches: Vec<Switch>,
    /// stop right after the concurrent phase and drop the map without any further operation
    #[serde(default)]
    pub drop_early: bool,
    /// after the audit, flush every thread's batch and demand that all garbage is gone
    #[serde(default)]
    pub flush_check: bool,
}
