//! Structured random generation of concurrent test cases, one profile per property.
use crate::ffi::RtCfg;
use crate::spec::*;
use crate::types::{mix, Site};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0xA5A5_1234))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn n(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
    pub fn r(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.n((hi - lo + 1) as u64) as u32
    }
    pub fn p(&mut self, pct: u64) -> bool {
        self.n(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.n(xs.len() as u64) as usize]
    }
    /// weighted pick
    pub fn w<T: Copy>(&mut self, xs: &[(u32, T)]) -> T {
        let tot: u32 = xs.iter().map(|x| x.0).sum();
        let mut k = self.n(tot as u64) as u32;
        for (w, x) in xs {
            if k < *w {
                return *x;
            }
            k -= w;
        }
        xs[0].1
    }
}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Get, GetKv, Contains, Insert, TryInsert, TryInsertWith, GetOrInsert, GetOrInsertWith, Update, UpdateOrInsert,
    UpdateOrInsertWith, Compute, Remove, RemoveEntry, RemoveIf, Clear, Retain, Iter, IterAround, CloneMap, Len, IsEmpty,
    Reserve, Release, Refresh, Flush, CheckHeld, Nested, Give, Take, Unpark, Extend, Debug,
}
use O::*;

const POINT: &[(u32, O)] = &[(4, Get), (1, GetKv), (1, Contains), (8, Insert), (4, TryInsert), (7, Remove), (1, RemoveEntry), (2, RemoveIf)];
const RMW: &[(u32, O)] = &[
    (3, Update), (3, UpdateOrInsert), (3, UpdateOrInsertWith), (7, Compute), (3, TryInsertWith), (2, GetOrInsert), (2, GetOrInsertWith), (3, RemoveIf),
    (2, Insert), (2, Remove), (1, Get), (1, TryInsert),
];
const ALL: &[(u32, O)] = &[
    (3, Get), (1, GetKv), (1, Contains), (8, Insert), (2, TryInsert), (1, TryInsertWith), (1, GetOrInsert), (1, GetOrInsertWith), (2, Update),
    (1, UpdateOrInsert), (1, UpdateOrInsertWith), (3, Compute), (6, Remove), (1, RemoveEntry), (1, RemoveIf), (1, Clear), (1, Retain), (1, Iter), (1, Reserve), (1, Len), (1, Extend),
];
const RESIZE: &[(u32, O)] = &[
    (3, Get), (1, Contains), (8, Insert), (2, TryInsert), (1, GetOrInsertWith), (2, Update), (2, UpdateOrInsert), (3, Compute), (5, Remove), (1, RemoveIf), (3, Reserve), (1, Iter), (1, Clear), (1, Retain), (1, Len), (2, Extend),
];
const ITER: &[(u32, O)] = &[(7, Iter), (5, IterAround), (2, CloneMap), (1, Debug), (1, Extend), (7, Insert), (5, Remove), (2, Update), (1, Compute), (1, Reserve), (1, Clear), (1, Retain)];
const BULK: &[(u32, O)] = &[(6, Clear), (7, Retain), (9, Insert), (4, Remove), (3, Update), (2, TryInsert), (2, Compute), (2, Get), (1, Reserve), (1, Extend)];
const LEN: &[(u32, O)] = &[(9, Insert), (8, Remove), (2, TryInsert), (3, Compute), (2, RemoveIf), (2, RemoveEntry), (2, Clear), (2, Retain), (2, Len), (1, IsEmpty), (1, UpdateOrInsert), (1, Reserve), (1, GetOrInsertWith), (1, Extend)];
const REFS: &[(u32, O)] = &[
    (7, Get), (2, GetKv), (5, Iter), (3, IterAround), (10, Insert), (9, Remove), (2, RemoveEntry), (2, Update), (2, Compute), (1, TryInsert), (1, Clear), (1, Retain), (1, Reserve),
    (3, CheckHeld), (1, CloneMap), (1, Debug), (3, Release), (2, Refresh), (2, Flush), (1, Nested), (3, Give), (3, Take),
];
const DROPS: &[(u32, O)] = &[
    (9, Insert), (3, TryInsert), (3, TryInsertWith), (3, GetOrInsert), (2, GetOrInsertWith), (3, Update), (3, UpdateOrInsert), (3, UpdateOrInsertWith), (6, Compute), (6, Remove), (1, RemoveIf),
    (2, Clear), (1, Retain), (2, Reserve), (1, CloneMap), (1, Flush), (1, Release), (1, Extend), (1, Debug),
];
const PANICS: &[(u32, O)] = &[
    (2, Get), (5, Insert), (2, TryInsert), (3, TryInsertWith), (1, GetOrInsert), (3, GetOrInsertWith), (4, Update), (2, UpdateOrInsert), (3, UpdateOrInsertWith), (8, Compute),
    (4, Remove), (1, RemoveEntry), (4, RemoveIf), (5, Retain), (1, Clear), (1, Iter), (1, Reserve), (1, Len), (2, Extend),
];
const BLOCK: &[(u32, O)] = &[(10, Insert), (3, Remove), (3, Update), (3, Compute), (2, Reserve), (2, Iter), (2, Clear), (1, Retain), (2, Unpark), (1, TryInsert), (1, Extend)];
const KEYS: &[(u32, O)] = &[
    (2, GetKv), (6, Insert), (5, TryInsert), (4, TryInsertWith), (4, GetOrInsert), (3, GetOrInsertWith), (2, Update), (1, UpdateOrInsert), (5, Compute), (3, Remove), (1, RemoveEntry), (2, RemoveIf), (3, Iter), (1, Reserve), (1, Retain), (1, CloneMap),
];
const READS: &[(u32, O)] = &[(6, Get), (2, GetKv), (3, Contains), (1, Len), (1, IsEmpty)];

fn op(r: &mut Rng, o: O, k: u32, threads: u32) -> Op {
    let acts = [Act::Insert, Act::Insert, Act::Remove, Act::Abort, Act::Parity];
    match o {
        Get => Op::Get(k),
        GetKv => Op::GetKv(k),
        Contains => Op::Contains(k),
        Insert => Op::Insert(k),
        TryInsert => Op::TryInsert(k),
        TryInsertWith => Op::TryInsertWith(k),
        GetOrInsert => Op::GetOrInsert(k),
        GetOrInsertWith => Op::GetOrInsertWith(k),
        Update => Op::Update(k),
        UpdateOrInsert => Op::UpdateOrInsert(k),
        UpdateOrInsertWith => Op::UpdateOrInsertWith(k),
        Compute => Op::Compute(k, r.pick(&[Act::Insert, Act::Insert, Act::Abort]), r.pick(&acts)),
        Remove => Op::Remove(k),
        RemoveEntry => Op::RemoveEntry(k),
        RemoveIf => Op::RemoveIf(k, r.pick(&[0, 2, 4, 5, 6, 1])),
        Clear => Op::Clear,
        Retain => Op::Retain(r.pick(&[1, 1, 2, 3, 4, 5, 0])),
        Iter => Op::Iter(r.w(&[(6, 0u8), (1, 1), (1, 2), (1, 3)])),
        IterAround => {
            let inner = r.w(&[(4, Insert), (3, Remove), (1, Reserve), (1, Clear), (2, Update), (1, Retain)]);
            Op::IterAround(r.r(0, 3) as u8, Box::new(op(r, inner, k, threads)))
        }
        CloneMap => Op::CloneMap,
        Len => Op::Len,
        IsEmpty => Op::IsEmpty,
        Reserve => Op::Reserve(r.pick(&[1, 4, 8, 10, 20, 40])),
        Release => Op::Release,
        Refresh => Op::Refresh,
        Flush => Op::Flush,
        CheckHeld => Op::CheckHeld,
        Nested => {
            let inner = r.w(&[(4, Insert), (3, Remove), (1, Get), (1, Iter)]);
            Op::Nested(Box::new(op(r, inner, k, threads)))
        }
        Give => Op::Give,
        Take => Op::Take,
        Extend => {
            let n = r.r(1, 4);
            Op::Extend((0..n).map(|i| if i == 0 || r.p(30) { k } else { k - r.r(0, k.min(3)) }).collect())
        }
        Debug => Op::Debug,
        Unpark => Op::Unpark(r.r(1, threads)),
    }
}

/// The op with a panic in user code it calls.
fn panicking(r: &mut Rng, o: Op) -> Op {
    let closure = matches!(
        o,
        Op::TryInsertWith(_) | Op::GetOrInsertWith(_) | Op::Update(_) | Op::UpdateOrInsert(_) | Op::UpdateOrInsertWith(_) | Op::Compute(..) | Op::RemoveIf(..) | Op::Retain(_)
    );
    if let (Op::Extend(ks), true) = (&o, r.p(70)) {
        return Op::Panic(Site::Item, r.r(1, ks.len() as u32), Box::new(o));
    }
    let keyed = !matches!(o, Op::Retain(_) | Op::Clear | Op::Iter(_) | Op::Reserve(_) | Op::Len | Op::Extend(_) | Op::Debug);
    if let (Op::Compute(k, _, b), true) = (&o, r.p(20)) {
        return Op::Compute(*k, Act::Misuse, *b);
    }
    // a hash of the operation's own key comes first; later ones may be of other keys
    let (site, n) = match (closure, keyed) {
        (true, false) => (Site::Closure, r.r(1, 6)),
        (true, true) if r.p(70) => (Site::Closure, r.w(&[(5, 1), (3, 2), (1, 3)])),
        (_, true) if r.p(75) => (Site::Eq, r.w(&[(4, 1), (3, 2), (1, 3), (1, 5)])),
        (_, true) => (Site::Hash, 1),
        _ => return o,
    };
    Op::Panic(site, n, Box::new(o))
}

/// The operation of a set that corresponds to one of a map.
fn to_set(o: &Op) -> Op {
    use Op::*;
    match o {
        GetKv(k) => Get(*k),
        Update(k) if k % 2 == 0 => Contains(*k),
        TryInsert(k) | TryInsertWith(k) | GetOrInsert(k) | GetOrInsertWith(k) | UpdateOrInsert(k) | UpdateOrInsertWith(k) => Insert(*k),
        Update(k) => Get(*k),
        Compute(k, Act::Insert, _) => Insert(*k),
        Compute(k, ..) | RemoveEntry(k) | RemoveIf(k, _) => Remove(*k),
        IterAround(n, o) => IterAround(*n, Box::new(to_set(o))),
        Nested(o) => Nested(Box::new(to_set(o))),
        Panic(s, n, o) => {
            let (i, o) = (o, to_set(o));
            // closures of the original operation are gone
            if *s == Site::Closure && !matches!(**i, Retain(_)) { o } else { Panic(*s, *n, Box::new(o)) }
        }
        o => o.clone(),
    }
}

pub fn gen(prop: &str, seed: u64) -> Case {
    let mut c = gen_map(prop, seed);
    if prop != "C04" && mix(seed ^ 0x5E75) % 100 < if prop == "C22" { 50 } else { 10 } {
        c.set = true;
        for o in c.prelude.iter_mut().chain(c.threads.iter_mut().flat_map(|t| t.ops.iter_mut())) {
            *o = to_set(o);
        }
    }
    c
}

fn gen_map(prop: &str, seed: u64) -> Case {
    let r = &mut Rng::new(seed);
    if matches!(prop, "C05" | "C13" | "C10" | "C11") && r.p(6) {
        return abort_case(prop, r);
    }
    if matches!(prop, "C03" | "C05" | "C08" | "C10" | "C13") && r.p(1) {
        return flood_case(prop, r);
    }
    let ops: &[(u32, O)] = match prop {
        "C03" => POINT,
        "C04" => RMW,
        "C05" => RESIZE,
        "C06" => ITER,
        "C07" => BULK,
        "C08" => LEN,
        "C09" => REFS,
        "C10" => DROPS,
        "C11" => DROPS,
        "C12" => ALL,
        "C13" => BLOCK,
        "C18" => PANICS,
        "C22" => KEYS,
        _ => ALL,
    };
    let blocking = r.p(40);
    let mut chunk = r.w(&[(15, 1usize), (15, 2), (10, 3), (10, 4), (10, 8), (10, 64), (2, 0), (1, usize::MAX), (1, 1 << 63)]);
    let capacity = r.w(&[(4, 0usize), (2, 1), (3, 6), (3, 12), (1, 24)]);
    let hasher = r.w(&[(5, 0u32), (2, 1), (5, 2), (2, 3), (2, 4), (2, 5), (2, 6)]);
    let len = match capacity { 0 => 32, 1 | 6 => 8, 12 => 16, _ => 32 };
    let slots = if len == 32 { if matches!(hasher, 0 | 3) { 26 } else { 30 } } else { len };
    // prelude: fill the table until `free` slots are left, with live keys and with churn
    let mut prelude = vec![];
    let hot = r.r(1, 3);
    let mut next = hot;
    let nested = !blocking && capacity == 0 && matches!(prop, "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C10" | "C11" | "C12" | "C13") && r.p(12);
    let hasher = if nested { r.pick(&[0, 3]) } else { hasher };
    if nested {
        chunk = 1;
    }
    let style = match prop { _ if nested => 3, "C03" | "C04" | "C09" | "C12" => r.w(&[(3, 0), (3, 1), (4, 2)]), _ => r.w(&[(1, 0), (1, 1), (6, 2)]) };
    match style {
        0 => {} // empty, possibly unallocated
        // Equal hashes overflow one table after the other while the copy of the first is under way. `used` insertions fill
        // the 26 slots of the first table they can reach, and then the 31 of the second.
        3 => {
            let live = r.w(&[(2, 2), (3, 8), (2, 16), (2, 26)]);
            let total = r.r(36, 50);
            for i in 0..total {
                let k = if i % 26 < live && i < 26 { next + i } else if r.p(20) { next + i } else { 63 };
                if r.p(3) && i > 26 {
                    prelude.push(Op::Remove(next + r.n(live as u64) as u32));
                }
                prelude.push(Op::Insert(k));
                if k == 63 {
                    prelude.push(Op::Remove(k));
                }
            }
            for k in 0..hot {
                if r.p(60) {
                    let at = r.n(prelude.len() as u64 + 1) as usize;
                    prelude.insert(at, Op::Insert(k));
                }
            }
            next += total;
        }
        1 => {
            for k in 0..r.r(0, hot + 2) {
                prelude.push(Op::Insert(k));
            }
            next += 2;
        }
        _ => {
            // small tables resize cheaply; 32-slot ones need a long prelude
            let free = r.w(&[(4, 0u32), (4, 1), (3, 2), (2, 3), (1, 5)]);
            let used = slots - free.min(slots);
            let live = match r.w(&[(3, 0), (3, 1), (3, 2)]) {
                0 => used.min(20),                          // mostly live: grows
                1 => r.r(0, (len / 8).min(used)),           // mostly churn: shrinks
                _ => r.r(0, used.min(20)),
            };
            let mut seq: Vec<bool> = (0..used).map(|i| i < live).collect();
            for i in (1..seq.len()).rev() {
                let j = r.n(i as u64 + 1) as usize;
                seq.swap(i, j);
            }
            let churn_hot = r.p(50);
            let mut present = vec![false; 64];
            let mut livek = 0u32;
            for l in seq {
                if l {
                    // a hot key half of the time
                    let k = if livek < hot && r.p(70) { livek } else { let k = next; next += 1; k };
                    livek = livek.max(if k < hot { k + 1 } else { livek });
                    present[k as usize] = true;
                    prelude.push(Op::Insert(k));
                } else {
                    let cand = if churn_hot { hot - 1 } else { 63 };
                    let k = if present[cand as usize] { 62 } else { cand };
                    prelude.push(Op::Insert(k));
                    prelude.push(Op::Remove(k));
                }
            }
        }
    }
    if r.p(4) {
        prelude.push(Op::Reserve(r.pick(&[10, 20, 40])));
    }
    // one extra insert may leave an incremental resize in progress before the threads start
    if !blocking && style == 2 && r.p(25) {
        prelude.push(Op::Insert(next));
        next += 1;
    }
    let nt = r.w(&[(5, 2u32), (5, 3), (1, 4)]);
    let fresh0 = next;
    let fresh = r.r(1, 4);
    let total = fresh0 + fresh;
    let mut threads = vec![];
    for t in 0..nt {
        let n = match nt { 2 => r.r(1, 5), 3 => r.r(1, 4), _ => r.r(1, 3) };
        let guard = match prop {
            "C09" => r.w(&[(2, GuardKind::PerOp), (7, GuardKind::Held), (8, GuardKind::Owned), (4, GuardKind::Shared), (3, GuardKind::PinHeld), (3, GuardKind::PinOwned)]),
            "C11" => r.w(&[(3, GuardKind::PerOp), (2, GuardKind::Held), (1, GuardKind::Pin), (1, GuardKind::PinHeld)]),
            "C10" | "C08" => r.w(&[(6, GuardKind::PerOp), (3, GuardKind::Held), (3, GuardKind::Owned), (1, GuardKind::Shared), (2, GuardKind::Pin), (1, GuardKind::PinHeld), (1, GuardKind::PinOwned)]),
            _ => r.w(&[(7, GuardKind::PerOp), (3, GuardKind::Held), (2, GuardKind::Owned), (1, GuardKind::Shared), (3, GuardKind::Pin), (1, GuardKind::PinHeld), (1, GuardKind::PinOwned)]),
        };
        let mut v = vec![];
        for _ in 0..n {
            let k = if r.p(65) { r.r(0, hot - 1) } else if r.p(60) || fresh0 == hot { fresh0 + r.n(fresh as u64) as u32 } else { r.r(0, fresh0 - 1) };
            let o = r.w(ops);
            let o = op(r, o, k, nt);
            v.push(if prop == "C18" && r.p(50) { panicking(r, o) } else { o });
        }
        let mut guard = guard;
        if prop == "C14" && t == 0 {
            // creating an owned guard takes a lock inside seize; that is not part of a lookup
            guard = r.pick(&[GuardKind::PerOp, GuardKind::Held, GuardKind::PerOp, GuardKind::Held, GuardKind::Pin]);
            v.clear();
            for _ in 0..r.r(1, 6) {
                let k = if r.p(75) { r.r(0, hot - 1) } else { r.r(0, total - 1) };
                let o = r.w(READS);
                v.push(op(r, o, k, nt));
            }
        }
        threads.push(Thread { guard, ops: v });
    }
    if prop == "C08" {
        // different numbers of shards and of threads that use each shard
        for t in &mut threads {
            if r.p(30) {
                t.guard = GuardKind::Owned;
            }
        }
    }
    let rt = sched(prop, r);
    let batch = match prop {
        "C09" | "C11" | "C12" => r.w(&[(5, 1usize), (3, 2), (1, 4), (1, 32)]),
        _ => r.w(&[(3, 1usize), (2, 2), (2, 4), (2, 32)]),
    };
    Case {
        map: MapCfg { blocking, chunk, capacity, hasher, batch },
        set: false,
        keys: total,
        prelude,
        threads,
        rt,
        switches: vec![],
        drop_early: prop == "C10" && r.p(50),
        flush_check: prop == "C11",
    }
}

fn sched(prop: &str, r: &mut Rng) -> RtCfg {
    let policy = r.w(&[(22, 1u32), (18, 0), (10, 3), (10, 4), (20, 5), (20, 6)]);
    let mut c = RtCfg {
        policy,
        p_shift: match policy { 6 => r.pick(&[0, 0, 0, 1, 3]), 4 => r.r(3, 6), 5 => r.r(0, 4), _ => r.r(1, 5) },
        depth: r.r(1, 5),
        horizon: r.pick(&[25, 60, 120, 250, 500, 1200]),
        seed: r.u64() >> 1,
        tso: if r.p(25) { r.pick(&[4, 16, 64, 256]) } else { 0 },
        cpus: r.pick(&[1, 2, 4]),
        misalign: r.p(50) as u32,
        check_races: (prop == "C12") as u32,
        freeze_step: 0,
        freeze_tid: 0,
        fair_after: 40_000,
        step_limit: 400_000,
        solo_limit: 20_000,
        spurious: if prop == "C13" && r.p(40) { r.r(1, 4) } else { 0 },
        quantum: 60,
        hold_reader: 0,
        weak: 0,
        weak_shift: 0,
        weak_cas: 0,
        weak_nosync: 0,
    };
    if c.tso == 0 && r.p(35) {
        c.weak = r.pick(&[8, 30, 100, 400]);
        c.weak_shift = r.r(0, 2);
        c.weak_nosync = r.p(40) as u32;
    }
    if r.p(20) {
        c.weak_cas = r.r(1, 4);
    }
    if prop == "C13" {
        c.tso = if c.weak == 0 && r.p(50) { r.pick(&[4, 16, 64, 256, 1000]) } else { 0 };
    }
    if prop == "C14" {
        c.freeze_tid = 1;
        c.freeze_step = if r.p(75) { r.r(1, 250) } else { r.r(1, 1500) };
        c.hold_reader = r.p(50) as u32;
        c.tso = 0;
        c.weak = 0;
        c.weak_nosync = 0;
        c.weak_cas = 0;
    }
    c
}

/// More keys with one hash than the probe limit of the table allows: it has to grow although it is nearly empty.
fn flood_case(prop: &str, r: &mut Rng) -> Case {
    let hasher = r.pick(&[0u32, 3]);
    let n = if r.p(70) { r.r(24, 29) } else { r.r(30, 36) };
    let mut prelude: Vec<Op> = (0..n).map(Op::Insert).collect();
    if r.p(30) {
        // deleted entries that a copy cleans up
        for _ in 0..r.r(1, 6) {
            prelude.push(Op::Remove(r.n(n as u64) as u32));
        }
    }
    let mut next = n;
    let mut threads = vec![];
    for _ in 0..r.r(2, 3) {
        let mut v = vec![];
        for _ in 0..r.r(1, 4) {
            if r.p(60) {
                v.push(Op::Insert(next));
                next += 1;
            } else {
                let o = r.w(&[(3, Get), (2, Insert), (2, Remove), (1, Update), (1, Iter), (1, Reserve)]);
                let k = r.n(next as u64) as u32;
                v.push(op(r, o, k, 3));
            }
        }
        threads.push(Thread { guard: r.pick(&[GuardKind::PerOp, GuardKind::PerOp, GuardKind::Pin, GuardKind::Owned]), ops: v });
    }
    let rt = sched(prop, r);
    Case {
        map: MapCfg { blocking: r.p(50), chunk: r.pick(&[1, 8, 64]), capacity: 0, hasher, batch: r.pick(&[1, 4, 32]) },
        set: false,
        keys: next,
        prelude,
        threads,
        rt,
        switches: vec![],
        drop_early: prop == "C10" && r.p(30),
        flush_check: prop == "C11",
    }
}

/// A shrinking copy that overflows because of insertions made between the decision to shrink and the copy.
fn abort_case(prop: &str, r: &mut Rng) -> Case {
    let blocking = r.p(75);
    let mut prelude = vec![Op::Reserve(40)];
    // the 31 slots reachable by key 0 in a 64-slot table are used up
    for _ in 0..31 {
        prelude.push(Op::Insert(0));
        prelude.push(Op::Remove(0));
    }
    let hasher = r.w(&[(1, 7), (4, 8)]);
    let n = if hasher == 7 { r.r(24, 30) } else { r.w(&[(1, 29), (1, 31), (1, 32), (9, 33)]) };
    let mut t1 = vec![];
    if r.p(10) {
        t1.push(Op::Get(1));
    }
    t1.push(Op::Insert(0));
    t1.push(Op::Insert(1));
    let t2: Vec<Op> = (0..n).map(|i| Op::Insert(64 + i)).collect();
    let mut t3 = vec![];
    for _ in 0..r.r(1, 3) {
        let o = r.w(&[(3, Insert), (1, Remove), (1, Update), (1, Reserve), (1, Iter), (1, Clear)]);
        let k = r.pick(&[0, 1, 64, 65, 66 + n - 3]);
        t3.push(op(r, o, k, 3));
    }
    let mut threads = vec![Thread { guard: GuardKind::PerOp, ops: t1 }, Thread { guard: GuardKind::PerOp, ops: t2 }, Thread { guard: GuardKind::PerOp, ops: t3 }];
    if r.p(40) {
        threads.pop();
    }
    let mut rt = sched(prop, r);
    rt.tso = 0;
    if r.p(70) {
        // T1 stalls somewhere between its first overflow and the copy
        if r.p(75) {
            // T1 comes first
            rt.policy = 6;
            rt.p_shift = 0;
            rt.depth = r.r(6, 7);
            rt.horizon = r.pick(&[8, 8, 16]);
        } else {
            rt.policy = 4;
            rt.depth = r.r(1, 2);
            rt.horizon = r.pick(&[300, 600, 1200]);
            rt.p_shift = 7;
        }
    }
    Case {
        map: MapCfg { blocking, chunk: r.pick(&[1, 4, 64]), capacity: 0, hasher, batch: r.pick(&[1, 4, 32]) },
        set: false,
        keys: 64 + n,
        prelude,
        threads,
        rt,
        switches: vec![],
        drop_early: prop == "C10" && r.p(30),
        flush_check: prop == "C11",
    }
}
