//! Special sequential cases: capacity contract, conversions, serialization, churn.
use mcore::ffi::*;
use mcore::seq::*;
use mcore::seqrun::*;
use mcore::spec::MapCfg;
use mcore::types::*;
use papaya::{HashMap, HashSet, ResizeMode};
use serde::de::{self, DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Deserializer, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::BuildHasher;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(c: &SCase) -> Option<SInfo> {
    Some(match c.kind.as_str() {
        "capacity" => capacity(c),
        "churn" => churn(c),
        "serde" => serde_case(c),
        _ => return None,
    })
}

fn mode(c: &MapCfg) -> ResizeMode {
    if c.blocking { ResizeMode::Blocking } else { ResizeMode::Incremental(c.chunk) }
}
#[inline(never)]
fn live_sizes() -> Vec<u64> {
    let mut v = vec![0u64; 8192];
    let n = unsafe { rt_live_sizes(v.as_mut_ptr(), 8192) };
    v.truncate(n as usize);
    v
}
fn alloc_max_reset() {
    unsafe { ALLOC_MAX = 0 }
}
fn alloc_max() -> u64 {
    unsafe { ALLOC_MAX }
}

// ------------------------------------------------------------------------------------------ capacity
/// Steps are pairs in `nums`:
/// 0 reads, 1 insert n fresh keys, 2 remove the n oldest, 3 reserve n, 4 churn n times (insert a fresh key, remove the
/// oldest), 5 reserve an impossible amount, 6 clear, 7 re-insert n present keys, 8 update n present keys,
/// 9 reserve from a second guard while one is held, 10 extend with n fresh keys, 11 retain about half, 12 insert and remove
/// keys of one slot until a new table is allocated
trait CapMap {
    fn insert(&self, k: u32);
    fn remove(&self, k: u32);
    fn update(&self, k: u32);
    fn reserve(&self, n: usize);
    fn clear(&self);
    fn extend(&self, k: u32, n: u32);
    fn retain(&mut self);
    fn reads(&mut self);
    fn len(&self) -> usize;
    fn has(&self, k: u32) -> bool;
    fn flush(&self);
}
/// Which of the four interfaces the next call goes through.
static mut VIA: u32 = 0;
fn via() -> u32 {
    unsafe {
        VIA = VIA.wrapping_mul(0x9E3779B1).wrapping_add(0x7F4A7C15);
        VIA >> 30
    }
}
macro_rules! via {
    ($s:expr, $f:ident($($a:expr),*)) => {
        match via() {
            0 => { #[allow(unused_mut)] let mut m = $s.pin(); let _ = m.$f($($a),*); }
            1 => { #[allow(unused_mut)] let mut m = $s.pin_owned(); let _ = m.$f($($a),*); }
            2 => { let g = $s.guard(); let _ = $s.$f($($a,)* &g); }
            _ => { let g = $s.owned_guard(); let _ = $s.$f($($a,)* &g); }
        }
    };
}
trait Sb: BuildHasher + Clone + Default {}
impl<S: BuildHasher + Clone + Default> Sb for S {}
impl<S: Sb> CapMap for HashMap<u32, u32, S> {
    fn insert(&self, k: u32) {
        via!(self, insert(k, k))
    }
    fn remove(&self, k: u32) {
        via!(self, remove(&k))
    }
    fn update(&self, k: u32) {
        via!(self, update(k, |v| *v))
    }
    fn reserve(&self, n: usize) {
        via!(self, reserve(n))
    }
    fn clear(&self) {
        via!(self, clear())
    }
    fn extend(&self, k: u32, n: u32) {
        let mut r = self;
        Extend::extend(&mut r, (k..k + n).map(|k| (k, k)))
    }
    fn retain(&mut self) {
        via!((&*self), retain(|k, _| k % 2 == 0))
    }
    fn reads(&mut self) {
        let m = self.pin();
        let n = m.len();
        assert!(m.get(&1).is_none() || n > 0);
        m.get_key_value(&2);
        m.contains_key(&3);
        assert_eq!(m.is_empty(), n == 0);
        if n == 0 {
            m.remove(&4);
            m.remove_entry(&4);
            assert!(m.remove_if(&5, |_, _| true).unwrap().is_none());
            m.update(6, |v| *v);
            m.clear();
            m.iter().for_each(|_| panic!("an empty map yields an entry"));
            m.keys().for_each(|_| ());
            m.values().for_each(|_| ());
            drop(m);
            via!((&*self), retain(|_, _| true));
            let c = self.clone();
            assert!(c == *self);
            assert!(c.is_empty());
        }
    }
    fn len(&self) -> usize {
        HashMap::len(self)
    }
    fn has(&self, k: u32) -> bool {
        self.pin().get(&k) == Some(&k)
    }
    fn flush(&self) {
        use papaya::Guard;
        self.guard().flush()
    }
}
impl<S: Sb> CapMap for HashSet<u32, S> {
    fn insert(&self, k: u32) {
        via!(self, insert(k))
    }
    fn remove(&self, k: u32) {
        via!(self, remove(&k))
    }
    fn update(&self, k: u32) {
        via!(self, insert(k))
    }
    fn reserve(&self, n: usize) {
        via!(self, reserve(n))
    }
    fn clear(&self) {
        via!(self, clear())
    }
    fn extend(&self, k: u32, n: u32) {
        let mut r = self;
        Extend::extend(&mut r, k..k + n)
    }
    fn retain(&mut self) {
        if via() % 2 == 0 { self.pin().retain(|k| k % 2 == 0) } else { self.pin_owned().retain(|k| k % 2 == 0) }
    }
    fn reads(&mut self) {
        let m = self.pin();
        let n = m.len();
        assert!(m.get(&1).is_none() || n > 0);
        m.contains(&3);
        assert_eq!(m.is_empty(), n == 0);
        if n == 0 {
            m.remove(&4);
            m.clear();
            m.iter().for_each(|_| panic!("an empty set yields an entry"));
            drop(m);
            self.pin().retain(|_| true);
            let c = self.clone();
            assert!(c == *self);
            assert!(c.is_empty());
        }
    }
    fn len(&self) -> usize {
        HashSet::len(self)
    }
    fn has(&self, k: u32) -> bool {
        self.pin().contains(&k)
    }
    fn flush(&self) {
        use papaya::Guard;
        self.guard().flush()
    }
}

#[inline(never)]
fn build_cap(c: &SCase, set: bool, cap: usize) -> Box<dyn CapMap> {
    let h = Bh(c.map.hasher);
    match (set, c.builder % 5) {
        (false, 0) => Box::new(HashMap::<u32, u32>::builder().capacity(cap).resize_mode(mode(&c.map)).hasher(h).build()),
        (false, 1) => Box::new(HashMap::<u32, u32, Bh>::with_capacity_and_hasher(cap, h)),
        (false, 2) => Box::new(HashMap::<u32, u32>::builder().hasher(h).capacity(cap).collector(seize::Collector::new().batch_size(c.map.batch)).resize_mode(mode(&c.map)).build()),
        // the default hasher, whose seeds are random
        (false, 4) if cap == 0 => Box::new(HashMap::<u32, u32>::new()),
        (false, 4) => Box::new(HashMap::<u32, u32>::with_capacity(cap)),
        (true, 4) if cap == 0 => Box::new(HashSet::<u32>::new()),
        (true, 4) => Box::new(HashSet::<u32>::with_capacity(cap)),
        (false, _) => {
            let m = HashMap::<u32, u32>::builder().hasher(h).resize_mode(mode(&c.map)).build();
            if cap > 0 {
                via!(m, reserve(cap));
            }
            Box::new(m)
        }
        (true, 0) => Box::new(HashSet::<u32>::builder().capacity(cap).resize_mode(mode(&c.map)).hasher(h).build()),
        (true, 1) => Box::new(HashSet::<u32, Bh>::with_capacity_and_hasher(cap, h)),
        (true, 2) => Box::new(HashSet::<u32>::builder().hasher(h).capacity(cap).collector(seize::Collector::new().batch_size(c.map.batch)).resize_mode(mode(&c.map)).build()),
        (true, _) => {
            let m = HashSet::<u32>::builder().hasher(h).resize_mode(mode(&c.map)).build();
            if cap > 0 {
                via!(m, reserve(cap));
            }
            Box::new(m)
        }
    }
}

#[inline(never)]
fn capacity(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let set = c.layout % 2 == 1;
    let cap = c.map.capacity;
    // `reserve` instead of a capacity does not set a floor
    let floor_given = c.builder % 5 != 3;
    unsafe { VIA = cap as u32 ^ c.nums.len() as u32 };
    // the blocks an empty map owns: per-thread state and counters
    let mut fixed: Vec<u64> = vec![];
    on(|| {
        let m = build_cap(c, set, 0);
        m.has(1);
        off(|| fixed.extend(live_sizes()));
        drop(m)
    });
    let base = unsafe { rt_live_bytes() };
    let mut m = on(|| build_cap(c, set, cap));
    let what = format!("a {} built with capacity {cap} ({:?})", if set { "set" } else { "map" }, mode(&c.map));
    let bad = |m: String| -> ! { fail("capacity", &format!("{what}: {m}")) };
    on(|| m.has(1));
    let max_live = || {
        let mut own = live_sizes();
        for f in &fixed {
            if let Some(i) = own.iter().position(|x| x == f) {
                own.swap_remove(i);
            }
        }
        own.into_iter().max().unwrap_or(0)
    };
    let floor = if cap > 0 && floor_given { max_live() } else { 0 };
    // a map without elements and without a requested capacity owns no table; the collector may be allocated
    let table = |slots: u64| slots * 8;
    if cap >= 64 && max_live() < table(cap as u64) {
        bad("there is no table of that size".into())
    }
    let (mut lo, mut hi) = (0u32, 0u32);
    let mut live: BTreeSet<u32> = BTreeSet::new();
    let mut pure = c.map.hasher == 1 && c.builder % 5 != 4; // contiguous keys, nothing was ever removed
    let mut promised = cap as u64;
    let mut peak = 0u64;
    let mut requested = cap as u64;
    let mut untouched = cap == 0;
    let fresh_bytes = unsafe { rt_live_bytes() } - base;
    let (mut cluster, mut overflowed, mut noise) = (1u32 << 20, false, 0u64);
    let bound = |peak: u64, requested: u64| 9 * (8 * peak.max(requested).max(8) + 64) + 256;
    for st in c.nums.chunks_exact(2) {
        let (code, n) = (st[0], st[1]);
        cx.i.ops += if matches!(code, 1 | 2 | 4 | 7 | 8 | 10) { n.min(1 << 20) } else { 1 };
        macro_rules! fresh {
            ($ins:expr) => {{
                let big = (8 * promised.max(8) + 64).max(noise);
                for _ in 0..n {
                    alloc_max_reset();
                    let first = untouched;
                    let k = hi;
                    #[allow(clippy::redundant_closure_call)]
                    on(|| ($ins)(&*m, k));
                    hi += 1;
                    live.insert(k);
                    untouched = false;
                    if pure && !first && live.len() as u64 <= promised && alloc_max() >= big {
                        bad(format!("room for {promised} elements was requested, but inserting well-distributed key number {} allocated {} bytes", live.len(), alloc_max()))
                    }
                }
                peak = peak.max(live.len() as u64);
            }};
        }
        match code {
            0 => {
                alloc_max_reset();
                on(|| m.reads());
                if untouched && alloc_max() >= 72 + 64 {
                    // reads() itself clones an empty map: that allocates a collector, no table
                    if alloc_max() > fresh_bytes.max(512) {
                        bad(format!("an operation that inserts nothing allocated {} bytes", alloc_max()))
                    }
                }
                if untouched && unsafe { ZEROED } != 0 && unsafe { rt_live_bytes() } - base > fresh_bytes + 64 {
                    bad(format!("operations that insert nothing left {} bytes allocated", unsafe { rt_live_bytes() } - base))
                }
            }
            1 => fresh!(|m: &dyn CapMap, k| m.insert(k)),
            2 => {
                for _ in 0..n {
                    if lo < hi {
                        on(|| m.remove(lo));
                        live.remove(&lo);
                        lo += 1;
                        pure = false;
                        untouched = false;
                    }
                }
            }
            3 => {
                on(|| m.reserve(n as usize));
                if overflowed && n >= 500 && c.map.hasher == 1 && c.builder % 5 != 4 {
                    // a resize was in progress or has just ended: nothing was removed from the table that results
                    pure = true;
                    promised = 0;
                    noise = 4096;
                }
                promised = promised.max(live.len() as u64 + n);
                requested = requested.max(live.len() as u64 + n);
                untouched = false;
                if n >= 64 && max_live() < table(live.len() as u64 + n) {
                    bad(format!("after reserve({n}) there is no table for {} elements", live.len() as u64 + n))
                }
            }
            4 => {
                for _ in 0..n {
                    on(|| {
                        m.insert(hi);
                        m.remove(lo);
                    });
                    live.insert(hi);
                    live.remove(&lo);
                    hi += 1;
                    lo += 1;
                }
                peak = peak.max(live.len() as u64 + 1);
                pure = false;
                untouched = false;
                on(|| m.flush());
                let big = max_live();
                let most = (floor.max(bound(live.len() as u64 + 1, 0))).max(table(0));
                // long churn with few elements must have shrunk a table that was only large because of a past peak
                if n > 20 * (peak.max(requested)).max(64) * 2 && big > most.max(floor) {
                    bad(format!("after {n} insertions and removals with {} elements alive the largest block still has {big} bytes (floor {floor})", live.len()))
                }
            }
            5 => {
                unsafe { EXPECT_PANIC = true };
                let r = catch_unwind(AssertUnwindSafe(|| on(|| m.reserve(n as usize))));
                unsafe {
                    rt_set(0);
                    EXPECT_PANIC = false
                };
                if r.is_ok() {
                    bad(format!("reserve({n}) was accepted"))
                }
                on(|| drop(r));
                cx.i.faults += 1;
                cx.leaky = true;
                untouched = false;
            }
            6 => {
                on(|| m.clear());
                if !live.is_empty() {
                    pure = false;
                }
                live.clear();
                lo = hi;
            }
            7 => {
                for k in live.iter().copied().take(n as usize).collect::<Vec<_>>() {
                    alloc_max_reset();
                    on(|| m.insert(k));
                    if pure && live.len() as u64 <= promised && alloc_max() >= 8 * promised.max(512) + 64 {
                        bad(format!("replacing a key allocated {} bytes", alloc_max()))
                    }
                }
            }
            8 => {
                for k in live.iter().copied().take(n as usize).collect::<Vec<_>>() {
                    on(|| m.update(k));
                }
            }
            10 => {
                // extend may reserve: promises nothing, must keep all
                on(|| m.extend(hi, n as u32));
                for k in hi..hi + n as u32 {
                    live.insert(k);
                }
                hi += n as u32;
                requested = requested.max(live.len() as u64 + n);
                peak = peak.max(live.len() as u64);
                untouched = false;
            }
            12 => {
                for _ in 0..200 {
                    alloc_max_reset();
                    on(|| m.insert(cluster));
                    live.insert(cluster);
                    let k = cluster;
                    cluster += 1 << 13;
                    if alloc_max() >= 4096 {
                        break;
                    }
                    on(|| m.remove(k));
                    live.remove(&k);
                }
                peak = peak.max(live.len() as u64 + 1);
                pure = false;
                untouched = false;
                on(|| m.flush());
            }
            11 => {
                on(|| m.retain());
                if live.iter().any(|k| k % 2 == 1) {
                    pure = false;
                }
                live.retain(|k| k % 2 == 0);
            }
            _ => {}
        }
        overflowed = code == 12;
        let big = max_live();
        if big < floor {
            bad(format!("after step {st:?} the largest block has {big} bytes, the initial table had {floor}"))
        }
        if big > bound(peak, requested) {
            bad(format!("after step {st:?} a block of {big} bytes is held; at most {} elements were alive and {} requested", peak, requested))
        }
        if on(|| m.len()) != live.len() {
            fail("model", &format!("{what}: after step {st:?} len is {}, {} keys are present", on(|| m.len()), live.len()))
        }
    }
    for k in live.iter().rev().take(400) {
        if !on(|| m.has(*k)) {
            fail("model", &format!("{what}: key {k} is gone"))
        }
    }
    for k in (0..hi).filter(|k| !live.contains(k)).take(100) {
        if on(|| m.has(k)) {
            fail("model", &format!("{what}: key {k} is back"))
        }
    }
    cx.i.extra = peak;
    on(|| drop(m));
    finish(&mut cx);
    cx.i
}

// ------------------------------------------------------------------------------------------ churn (C11)
/// nums: [live keys, operations, style]
#[inline(never)]
fn churn(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let (live, n, style) = (c.nums[0] as u32, c.nums[1] as u32, c.nums[2]);
    let map: HashMap<Key, Val, Bh> = on(|| Bh::map(c));
    let batch = if matches!(c.builder, 0 | 4) { c.map.batch as u64 } else { 32 };
    // seize rounds batches up to the number of threads known to the collector
    let allowed = 2 * batch.max(64) + 8 * live as u64 + 128;
    let mut present: BTreeSet<u32> = BTreeSet::new();
    let mut dead_keys = 0u64;
    let peak0 = unsafe { rt_live_bytes() };
    for i in 0..n {
        let k = match style {
            0 => i % live.max(1),
            1 => i,
            2 => (mix(i as u64) % live.max(1) as u64) as u32,
            _ => i % (2 * live.max(1)),
        };
        on(|| {
            let m = map.pin();
            match style {
                1 => {
                    m.insert(Key::new(k), Val::new(k));
                    if i >= live {
                        m.remove(&Q(i - live));
                    }
                }
                3 => {
                    if i / live.max(1) % 2 == 0 {
                        m.insert(Key::new(k), Val::new(k));
                    } else {
                        m.remove(&Q(k));
                    }
                }
                2 => match mix(i as u64 ^ 77) % 4 {
                    0 => {
                        m.remove(&Q(k));
                    }
                    1 => {
                        m.update(Key::new(k), |_| Val::new(k));
                    }
                    2 => {
                        m.compute(Key::new(k), |e| match e {
                            Some(_) if i % 3 == 0 => papaya::Operation::Remove,
                            Some(_) => papaya::Operation::Insert(Val::new(k)),
                            None => papaya::Operation::<Val, ()>::Insert(Val::new(k)),
                        });
                    }
                    _ => {
                        m.insert(Key::new(k), Val::new(k));
                    }
                },
                _ => {
                    m.insert(Key::new(k), Val::new(k));
                }
            }
        });
        cx.i.ops += 1;
        if i % 64 == 63 || i + 1 == n {
            let undropped = reg().val_drops.iter().filter(|d| **d == 0).count() as u64;
            let now = on(|| map.len()) as u64;
            if undropped < now {
                fail("drop", &format!("{now} entries are present but only {undropped} values are undropped"))
            }
            let garbage = undropped - now;
            dead_keys = dead_keys.max(garbage);
            if garbage > allowed {
                fail("garbage", &format!("after {} operations on at most {} keys with every guard released, {garbage} removed or replaced values are still not dropped (batch size {batch})", i + 1, 2 * live))
            }
            let kd = reg().key_drops.iter().filter(|d| **d == 0).count() as u64;
            if kd > now + allowed {
                fail("garbage", &format!("after {} operations {kd} key objects are undropped for {now} entries", i + 1))
            }
            let bytes = unsafe { rt_live_bytes() } - peak0;
            let most = (allowed + 2 * live as u64) * 96 + 64 * (64 + 8 * live as u64) + 65536;
            if bytes > most {
                fail("garbage", &format!("after {} operations on at most {} keys the map holds {bytes} bytes", i + 1, 2 * live))
            }
        }
        let _ = &mut present;
    }
    cx.i.extra = dead_keys;
    cx.i.removed = reg().val_drops.iter().filter(|d| **d > 0).count() as u64;
    on(|| drop(map));
    finish(&mut cx);
    cx.i
}

// ------------------------------------------------------------------------------------------ serde (C21)
fn sbad(m: String) -> ! {
    fail("serde", &m)
}
fn show_json(t: &str) -> String {
    t.chars().take(400).collect()
}

type PMap<K, V> = HashMap<K, V, Bh>;
type PSet<K> = HashSet<K, Bh>;

/// One input text, deserialized into papaya's and std's collection of the same type.
#[inline(never)]
fn diff_map<K, V>(t: &str, cx: &mut Cx)
where
    K: Send + DeserializeOwned + Serialize + std::hash::Hash + Eq + Ord + Clone + std::fmt::Debug,
    V: Send + DeserializeOwned + Serialize + PartialEq + Clone + std::fmt::Debug,
{
    let want = serde_json::from_str::<std::collections::HashMap<K, V>>(t);
    unsafe { rt_reset_peak() };
    let live = unsafe { rt_live_bytes() };
    let got = match catch_unwind(AssertUnwindSafe(|| on(|| serde_json::from_str::<PMap<K, V>>(t)))) {
        Ok(r) => r,
        Err(_) => {
            unsafe { rt_set(0) };
            sbad(format!("deserializing {} panics", show_json(t)))
        }
    };
    let peak = unsafe { rt_peak_bytes() } - live;
    if peak > 400_000 + 400 * t.len() as u64 {
        sbad(format!("deserializing {} bytes allocated {peak} bytes", t.len()))
    }
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            cx.i.replaced += 1;
            let a: BTreeMap<K, V> = w.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let ge: Vec<(K, V)> = on(|| { let gd = g.guard(); g.iter(&gd).map(|(k, v)| (off(|| k.clone()), off(|| v.clone()))).fold(off(Vec::new), |mut a, x| { off(|| a.push(x)); a }) });
            let n = ge.len();
            let b: BTreeMap<K, V> = ge.into_iter().collect();
            if n != b.len() || a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.0 != y.0 || x.1 != y.1) || on(|| g.len()) != a.len() {
                sbad(format!("{} deserializes to {b:?} (len {n}), an ordinary map is {a:?}", show_json(t)))
            }
            // serializing gives what an ordinary map gives, directly and through both views
            let std_json = serde_json::to_value(w).ok();
            for form in 0..4 {
                let j = on(|| match form {
                    0 => serde_json::to_string(g),
                    1 => serde_json::to_string(&g.pin()),
                    2 => serde_json::to_string(&g.pin_owned()),
                    _ => serde_json::to_string_pretty(g),
                });
                match (&std_json, &j) {
                    (Some(s), Ok(j)) => {
                        if serde_json::from_str::<serde_json::Value>(j).ok().as_ref() != Some(s) {
                            sbad(format!("serialized as {}, an ordinary map as {s}", show_json(j)))
                        }
                        // the text has every entry once
                        let again: std::collections::HashMap<K, V> = serde_json::from_str(j).unwrap_or_else(|e| sbad(format!("serialized text does not parse: {e}")));
                        if again.len() != w.len() || again.iter().any(|(k, v)| w.get(k) != Some(v)) {
                            sbad(format!("{} does not give back the contents", show_json(j)))
                        }
                        let back = on(|| serde_json::from_str::<PMap<K, V>>(j));
                        match &back {
                            Ok(b) if on(|| b == g) => {}
                            Ok(b) => sbad(format!("{} round-trips to a different map {b:?}", show_json(j))),
                            Err(e) => sbad(format!("{} does not deserialize: {e}", show_json(j))),
                        }
                        on(|| drop(back));
                    }
                    (None, Err(_)) => {}
                    (s, j) => sbad(format!("serialization succeeds={} where an ordinary map's does={}", j.is_ok(), s.is_some())),
                }
                on(|| drop(j));
            }
            // a failing writer is reported
            if let Some(s) = std_json {
                let full = s.to_string().len();
                for cut in [0, full / 2, full.saturating_sub(1)] {
                    let r = on(|| serde_json::to_writer(Cut(cut), g));
                    if r.is_ok() {
                        sbad(format!("serializing into a writer that fails after {cut} of {full} bytes succeeds"))
                    }
                    on(|| drop(r));
                }
            }
        }
        (Err(a), Err(b)) => {
            cx.i.faults += 1;
            if a.classify() != b.classify() {
                sbad(format!("{}: papaya reports {b}, an ordinary map {a}", show_json(t)))
            }
        }
        (a, b) => sbad(format!("deserializing {} succeeds={}, into an ordinary map succeeds={} ({:?})", show_json(t), b.is_ok(), a.is_ok(), b.as_ref().err().map(|e| e.to_string()))),
    }
    on(|| drop(got));
}
#[inline(never)]
fn diff_set<K>(t: &str, cx: &mut Cx)
where
    K: Send + DeserializeOwned + Serialize + std::hash::Hash + Eq + Ord + Clone + std::fmt::Debug,
{
    let want = serde_json::from_str::<std::collections::HashSet<K>>(t);
    unsafe { rt_reset_peak() };
    let live = unsafe { rt_live_bytes() };
    let got = match catch_unwind(AssertUnwindSafe(|| on(|| serde_json::from_str::<PSet<K>>(t)))) {
        Ok(r) => r,
        Err(_) => {
            unsafe { rt_set(0) };
            sbad(format!("deserializing {} panics", show_json(t)))
        }
    };
    let peak = unsafe { rt_peak_bytes() } - live;
    if peak > 400_000 + 400 * t.len() as u64 {
        sbad(format!("deserializing {} bytes allocated {peak} bytes", t.len()))
    }
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            cx.i.replaced += 1;
            let a: BTreeSet<K> = w.iter().cloned().collect();
            let ge: Vec<K> = on(|| { let gd = g.guard(); g.iter(&gd).map(|k| off(|| k.clone())).fold(off(Vec::new), |mut a, x| { off(|| a.push(x)); a }) });
            let n = ge.len();
            let b: BTreeSet<K> = ge.into_iter().collect();
            if n != b.len() || a != b || on(|| g.len()) != a.len() {
                sbad(format!("{} deserializes to {b:?} (len {n}), an ordinary set is {a:?}", show_json(t)))
            }
            for form in 0..4 {
                let j = on(|| match form {
                    0 => serde_json::to_string(g),
                    1 => serde_json::to_string(&g.pin()),
                    2 => serde_json::to_string(&g.pin_owned()),
                    _ => serde_json::to_string_pretty(g),
                });
                let Ok(jt) = &j else { sbad("serializing a set fails".into()) };
                let again: Vec<K> = serde_json::from_str(jt).unwrap_or_else(|e| sbad(format!("serialized set does not parse: {e}: {}", show_json(jt))));
                if again.len() != a.len() || again.into_iter().collect::<BTreeSet<K>>() != a {
                    sbad(format!("{} does not give back the set {a:?}", show_json(jt)))
                }
                let back = on(|| serde_json::from_str::<PSet<K>>(jt));
                match &back {
                    Ok(b) if on(|| b == g) => {}
                    Ok(b) => sbad(format!("{} round-trips to a different set {b:?}", show_json(jt))),
                    Err(e) => sbad(format!("{} does not deserialize: {e}", show_json(jt))),
                }
                on(|| drop(back));
                on(|| drop(j));
            }
            let full = serde_json::to_string(w).unwrap().len();
            for cut in [0, full / 2, full - 1] {
                let r = on(|| serde_json::to_writer(Cut(cut), g));
                if r.is_ok() {
                    sbad(format!("serializing into a writer that fails after {cut} of {full} bytes succeeds"))
                }
                on(|| drop(r));
            }
        }
        (Err(a), Err(b)) => {
            cx.i.faults += 1;
            if a.classify() != b.classify() {
                sbad(format!("{}: papaya reports {b}, an ordinary set {a}", show_json(t)))
            }
        }
        (a, b) => sbad(format!("deserializing {} succeeds={}, into an ordinary set succeeds={}", show_json(t), b.is_ok(), a.is_ok())),
    }
    on(|| drop(got));
}
struct Cut(usize);
impl std::io::Write for Cut {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A deserializer that hands out a token stream with any size hint and may fail in the middle.
struct Tok<'a> {
    items: &'a [(u32, u32)],
    hint: Option<usize>,
    fail_at: usize,
    /// whether the failing element fails at its value instead of its key
    at_value: bool,
    at: usize,
    seq: bool,
}
type TErr = de::value::Error;
impl<'de> Deserializer<'de> for &mut Tok<'_> {
    type Error = TErr;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, TErr> {
        if self.seq { v.visit_seq(self) } else { v.visit_map(self) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> de::MapAccess<'de> for &mut Tok<'_> {
    type Error = TErr;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, TErr> {
        if self.at == self.fail_at && !self.at_value {
            return Err(de::Error::custom("injected"));
        }
        match self.items.get(self.at) {
            None => Ok(None),
            Some(x) => s.deserialize(x.0.into_deserializer()).map(Some),
        }
    }
    fn next_value_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, TErr> {
        if self.at == self.fail_at {
            return Err(de::Error::custom("injected"));
        }
        let x = self.items[self.at];
        self.at += 1;
        s.deserialize(x.1.into_deserializer())
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> de::SeqAccess<'de> for &mut Tok<'_> {
    type Error = TErr;
    fn next_element_seed<K: de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, TErr> {
        if self.at == self.fail_at {
            return Err(de::Error::custom("injected"));
        }
        match self.items.get(self.at) {
            None => Ok(None),
            Some(x) => {
                self.at += 1;
                s.deserialize(x.0.into_deserializer()).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

#[inline(never)]
fn tokens(c: &SCase, cx: &mut Cx) {
    // nums: [hint kind, hint, fail position, at value, seq, set]
    let hint = match c.nums[0] {
        0 => None,
        _ => Some(c.nums[1] as usize),
    };
    let items: Vec<(u32, u32)> = c.keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect();
    let fail_at = if c.nums[2] == 0 { usize::MAX } else { c.nums[2] as usize - 1 };
    let (seq, set) = (c.nums[4] == 1, c.nums[5] == 1);
    let mut t = Tok { items: &items, hint, fail_at, at_value: c.nums[3] == 1, at: 0, seq };
    let fails = seq != set || fail_at < items.len() || (fail_at == items.len() && (set || !t.at_value));
    let live = unsafe { rt_live_bytes() };
    unsafe { rt_reset_peak() };
    let text = format!("a {} of {} elements offered as a {} with size hint {hint:?}", if set { "set" } else { "map" }, items.len(), if seq { "sequence" } else { "map" });
    let check = |ok: bool| {
        let peak = unsafe { rt_peak_bytes() } - live;
        if peak > 400_000 + 400 * items.len() as u64 {
            sbad(format!("{text}: {peak} bytes were allocated"))
        }
        if ok == fails {
            sbad(format!("{text}, failing at {fail_at}: deserialization succeeds={ok}"))
        }
    };
    let guard = |r: std::thread::Result<()>| {
        if r.is_err() {
            unsafe { rt_set(0) };
            sbad(format!("{text}: deserialization panics"))
        }
    };
    if set {
        let mut out = None;
        guard(catch_unwind(AssertUnwindSafe(|| on(|| out = Some(HashSet::<Key, Bh>::deserialize(&mut t))))));
        let r = out.unwrap();
        check(r.is_ok());
        if let Ok(s) = &r {
            let want: BTreeSet<u32> = c.keys.iter().copied().collect();
            if scontents(s) != want.iter().copied().collect::<Vec<_>>() {
                sbad(format!("{text}: the result is {:?}, not {want:?}", scontents(s)))
            }
            cx.i.replaced += 1;
        } else {
            cx.i.faults += 1;
        }
        on(|| drop(r));
    } else {
        let mut out = None;
        guard(catch_unwind(AssertUnwindSafe(|| on(|| out = Some(HashMap::<Key, Val, Bh>::deserialize(&mut t))))));
        let r = out.unwrap();
        check(r.is_ok());
        if let Ok(m) = &r {
            let want: BTreeMap<u32, u32> = items.iter().copied().collect();
            let mut got = vec![];
            on(|| {
                let g = m.guard();
                for (k, v) in m.iter(&g) {
                    let (k, v) = (k.read(), v.read());
                    off(|| got.push((k, reg().val_key[v as usize])));
                }
            });
            got.sort();
            if got != want.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() {
                sbad(format!("{text}: the result is {got:?}, not {want:?}"))
            }
            cx.i.replaced += 1;
        } else {
            cx.i.faults += 1;
        }
        on(|| drop(r));
    }
}

#[inline(never)]
fn serde_case(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    cx.i.ops = c.text.len() as u64 + c.keys.len() as u64;
    let t = c.text.as_str();
    match c.layout {
        0 => diff_map::<u16, u16>(t, &mut cx),
        1 => diff_map::<String, String>(t, &mut cx),
        2 => diff_map::<String, Vec<i32>>(t, &mut cx),
        3 => diff_map::<i64, Option<bool>>(t, &mut cx),
        4 => diff_map::<String, BTreeMap<String, u8>>(t, &mut cx),
        5 => diff_set::<String>(t, &mut cx),
        6 => diff_set::<i64>(t, &mut cx),
        7 => diff_set::<(u8, bool)>(t, &mut cx),
        _ => tokens(c, &mut cx),
    }
    finish(&mut cx);
    cx.i
}
