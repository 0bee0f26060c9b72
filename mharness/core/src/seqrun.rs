//! Runs sequential cases: construction, segments, faults, audits, teardown.
use crate::exec::{pred, sh};
use crate::ffi::*;
use crate::layouts::*;
use crate::seq::*;
use crate::types::*;
use papaya::{HashMap, HashSet, ResizeMode};
use std::hash::{BuildHasher, RandomState};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// set while a panic of papaya itself is what the case demands
pub static mut EXPECT_PANIC: bool = false;

pub trait HsT: BuildHasher + Clone + Default + 'static {
    fn map<K: KeyT, V: ValT>(c: &SCase) -> HashMap<K, V, Self>;
    fn set<K: KeyT>(c: &SCase) -> HashSet<K, Self>;
}
fn mode(c: &SCase) -> ResizeMode {
    if c.map.blocking { ResizeMode::Blocking } else { ResizeMode::Incremental(c.map.chunk) }
}
impl HsT for Bh {
    fn map<K: KeyT, V: ValT>(c: &SCase) -> HashMap<K, V, Bh> {
        let h = Bh(c.map.hasher);
        match c.builder {
            0 => HashMap::builder().hasher(h).capacity(c.map.capacity).resize_mode(mode(c)).collector(seize::Collector::new().batch_size(c.map.batch)).build(),
            1 => HashMap::builder().capacity(c.map.capacity).resize_mode(mode(c)).hasher(h).build(),
            2 => HashMap::with_capacity_and_hasher(c.map.capacity, h),
            3 => HashMap::with_hasher(h),
            4 => HashMap::builder().collector(seize::Collector::new().batch_size(c.map.batch)).resize_mode(mode(c)).hasher(h).build(),
            _ => HashMap::default(),
        }
    }
    fn set<K: KeyT>(c: &SCase) -> HashSet<K, Bh> {
        let h = Bh(c.map.hasher);
        match c.builder {
            0 => HashSet::builder().hasher(h).capacity(c.map.capacity).resize_mode(mode(c)).collector(seize::Collector::new().batch_size(c.map.batch)).build(),
            1 => HashSet::builder().capacity(c.map.capacity).resize_mode(mode(c)).hasher(h).build(),
            2 => HashSet::with_capacity_and_hasher(c.map.capacity, h),
            3 => HashSet::with_hasher(h),
            4 => HashSet::builder().collector(seize::Collector::new().batch_size(c.map.batch)).resize_mode(mode(c)).hasher(h).build(),
            _ => HashSet::default(),
        }
    }
}
impl HsT for RandomState {
    fn map<K: KeyT, V: ValT>(c: &SCase) -> HashMap<K, V, RandomState> {
        match c.builder {
            0 => HashMap::builder().capacity(c.map.capacity).resize_mode(mode(c)).collector(seize::Collector::new().batch_size(c.map.batch)).build(),
            1 => HashMap::new(),
            2 => HashMap::with_capacity(c.map.capacity),
            3 => HashMap::from([]),
            4 => std::iter::empty().collect(),
            _ => HashMap::default(),
        }
    }
    fn set<K: KeyT>(c: &SCase) -> HashSet<K, RandomState> {
        match c.builder {
            0 => HashSet::builder().capacity(c.map.capacity).resize_mode(mode(c)).collector(seize::Collector::new().batch_size(c.map.batch)).build(),
            1 => HashSet::new(),
            2 => HashSet::with_capacity(c.map.capacity),
            3 => HashSet::from([]),
            4 => std::iter::empty().collect(),
            _ => HashSet::default(),
        }
    }
}

#[inline(never)]
fn snapshot<K: KeyT, V: ValT, S: BuildHasher>(map: &HashMap<K, V, S>) -> Model {
    let mut m = Model::new();
    on(|| {
        let g = map.guard();
        for (k, v) in map.iter(&g) {
            let x = (k.k(), k.inst(), v.id());
            off(|| {
                if m.insert(x.0, (x.1, x.2)).is_some() {
                    fail("iteration", &format!("iteration yields key {} twice", x.0))
                }
            });
        }
    });
    m
}
#[inline(never)]
fn ssnapshot<K: KeyT, S: BuildHasher>(set: &HashSet<K, S>) -> Model {
    let mut m = Model::new();
    on(|| {
        let g = set.guard();
        for k in set.iter(&g) {
            let x = (k.k(), k.inst());
            off(|| {
                if m.insert(x.0, (x.1, 0)).is_some() {
                    fail("iteration", &format!("iteration yields key {} twice", x.0))
                }
            });
        }
    });
    m
}

/// Runs `f` with a fault armed. `None`: nothing fired and `f` returned.
fn faulty(site: Site, n: u32, f: impl FnOnce()) -> bool {
    arm(Some((site, n)));
    let r = catch_unwind(AssertUnwindSafe(f));
    let fired = fired();
    arm(None);
    unsafe { rt_set(0) };
    match r {
        Ok(()) => false,
        Err(p) => {
            if !fired || !p.is::<Injected>() {
                fail("panic", "a panic other than the injected one escaped")
            }
            on(|| drop(p));
            true
        }
    }
}

/// What a fault may have left behind; adopts it or reports.
#[inline(never)]
fn reconcile(op: &SOp, set: bool, m: &mut Model, actual: Model, cx: &mut Cx) {
    match op {
        SOp::Retain(p) => {
            for (k, x) in m.iter() {
                if !actual.contains_key(k) && pred(*p, *k, if set { *k } else { x.1 }) {
                    cx.bad("model", &format!("a panicking retain removed key {k}, which its predicate accepts"))
                }
            }
            for (k, x) in &actual {
                if m.get(k) != Some(x) {
                    cx.bad("model", &format!("after a panicking retain key {k} is {x:?}, it was {:?}", m.get(k)))
                }
            }
            *m = actual;
        }
        SOp::Extend(_) => {
            let plan = cx.plan.clone();
            let mut t = m.clone();
            let same = |a: &Model, b: &Model| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 .1 == y.1 .1);
            let mut ok = same(&t, &actual);
            for (k, inst, id) in plan {
                if ok {
                    break;
                }
                t.insert(k, (inst, if set { 0 } else { id }));
                ok = same(&t, &actual);
            }
            if !ok {
                cx.bad("model", &format!("after a panicking extend the contents are {actual:?}, which no prefix of its items explains (before: {m:?}, items {:?})", cx.plan))
            }
            *m = actual;
        }
        _ => {
            if actual != *m {
                cx.bad("model", &format!("after the panic the contents are {actual:?}, before they were {m:?}"))
            }
        }
    }
}

fn is_point(op: &SOp) -> bool {
    use SOp::*;
    matches!(op, Get(_) | GetKv(_) | Contains(_) | Insert(_) | TryInsert(_) | TryInsertWith(_) | GetOrInsert(_) | GetOrInsertWith(_) | Update(_) | UpdateOrInsert(_) | UpdateOrInsertWith(_) | Compute(..) | Remove(_) | RemoveEntry(_) | RemoveIf(..))
}

fn foreign<T>(form: u8, f: impl Fn(&dyn ForeignUse) -> T) -> T {
    // guards of other collectors
    struct L<'a>(seize::LocalGuard<'a>);
    struct O<'a>(seize::OwnedGuard<'a>);
    impl ForeignUse for L<'_> {
        fn local(&self) -> Option<&seize::LocalGuard<'_>> { Some(unsafe { std::mem::transmute(&self.0) }) }
        fn owned(&self) -> Option<&seize::OwnedGuard<'_>> { None }
    }
    impl ForeignUse for O<'_> {
        fn local(&self) -> Option<&seize::LocalGuard<'_>> { None }
        fn owned(&self) -> Option<&seize::OwnedGuard<'_>> { Some(unsafe { std::mem::transmute(&self.0) }) }
    }
    match form % 4 {
        0 => {
            let o: HashMap<u32, u32, Bh> = on(HashMap::default);
            let g = L(on(|| o.guard()));
            let r = f(&g);
            on(|| drop(g));
            on(|| drop(o));
            r
        }
        1 => {
            let o: HashMap<u32, u32, Bh> = on(HashMap::default);
            let g = O(on(|| o.owned_guard()));
            let r = f(&g);
            on(|| drop(g));
            on(|| drop(o));
            r
        }
        2 => {
            use seize::Collector;
            let c = on(Collector::new);
            let g = L(on(|| c.enter()));
            let r = f(&g);
            on(|| drop(g));
            on(|| drop(c));
            r
        }
        _ => {
            let o: HashSet<u32, Bh> = on(HashSet::default);
            let g = L(on(|| o.guard()));
            let r = f(&g);
            on(|| drop(g));
            on(|| drop(o));
            r
        }
    }
}
pub trait ForeignUse {
    fn local(&self) -> Option<&seize::LocalGuard<'_>>;
    fn owned(&self) -> Option<&seize::OwnedGuard<'_>>;
}

fn demand_panic(cx: &Cx, f: impl FnOnce()) {
    unsafe { EXPECT_PANIC = true };
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe {
        rt_set(0);
        EXPECT_PANIC = false;
    }
    match r {
        Ok(()) => cx.bad("guard", "a guard of another collector was accepted"),
        Err(p) => on(|| drop(p)),
    }
}

#[inline(never)]
fn run_op<K: KeyT, V: ValT, S: HsT, A: Api<K, V, S>>(a: &mut A, op: &SOp, m: &mut Model, cx: &mut Cx) {
    match op {
        SOp::Inj(site, n, inner) => {
            let mut m2 = m.clone();
            if !faulty(*site, *n, || step(a, inner, &mut m2, cx)) {
                *m = m2;
                return;
            }
            cx.i.faults += 1;
            cx.stage = Some("panic-safety");
            if matches!(site, Site::Hash | Site::Eq) {
                cx.leaky = true;
            }
            if *site == Site::Hash && !(is_point(inner) && *n == 1) {
                cx.broken = true;
                return;
            }
            let actual = snapshot(a.map());
            reconcile(inner, false, m, actual, cx);
            audit(a, &[], m, cx);
        }
        SOp::Foreign(form, inner) => {
            cx.i.foreign += 1;
            let before = snapshot(a.map());
            let stage = cx.stage;
            cx.stage = Some("guard");
            let map = a.map();
            let cell = std::cell::RefCell::new(&mut *cx);
            foreign(*form, |g| {
                let cx = &mut **cell.borrow_mut();
                let mut m2 = m.clone();
                let st: *const Cx = cx;
                // Safety: only read after the step has unwound or returned
                if let Some(g) = g.local() {
                    demand_panic(unsafe { &*st }, || step(&mut Gd { m: map, g }, inner, &mut m2, cx));
                } else if let Some(g) = g.owned() {
                    demand_panic(unsafe { &*st }, || step(&mut Gd { m: map, g }, inner, &mut m2, cx));
                }
            });
            let after = snapshot(a.map());
            if before != after {
                cx.bad("guard", &format!("an operation with a foreign guard changed the contents from {before:?} to {after:?}"))
            }
            audit(a, &[], m, cx);
            cx.stage = stage;
        }
        _ => step(a, op, m, cx),
    }
}

#[inline(never)]
fn audit<K: KeyT, V: ValT, S: HsT, A: Api<K, V, S>>(a: &mut A, keys: &[u32], m: &mut Model, cx: &mut Cx) {
    let (o, c) = (cx.i.ops, cx.cur.clone());
    cx.cur = format!("audit after {c}");
    for f in 0..4 {
        step(a, &SOp::Iter(f), m, cx);
    }
    step(a, &SOp::Len, m, cx);
    step(a, &SOp::IsEmpty, m, cx);
    for k in keys {
        step(a, &SOp::GetKv(*k), m, cx);
        step(a, &SOp::Get(*k), m, cx);
        step(a, &SOp::Contains(*k), m, cx);
    }
    cx.i.ops = o;
    cx.cur = c;
}

pub fn new_cx() -> Cx {
    Cx { i: SInfo::default(), stage: None, broken: false, leaky: false, at: (0, 0), cur: String::new(), plan: vec![] }
}

#[inline(never)]
pub fn run_map<K: KeyT, V: ValT, S: HsT>(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let mut m = Model::new();
    let z0 = unsafe { ZEROED };
    let map: Box<HashMap<K, V, S>> = on(|| Box::new(S::map(c)));
    'all: for (si, seg) in c.segs.iter().enumerate() {
        macro_rules! go {
            ($a:expr, $ops:expr) => {{
                let mut a = $a;
                for (oi, op) in $ops {
                    cx.at = (si, oi);
                    cx.cur = format!("{op:?}");
                    run_op(&mut a, op, &mut m, &mut cx);
                    if cx.broken {
                        break;
                    }
                }
                if !cx.broken && (seg.form < 4) {
                    audit(&mut a, &c.keys, &mut m, &mut cx);
                }
                on(|| drop(a));
            }};
        }
        let all = || seg.ops.iter().enumerate();
        match seg.form {
            0 => {
                let g = on(|| map.guard());
                go!(Gd { m: &*map, g: &g }, all());
                on(|| drop(g));
            }
            1 => {
                let g = on(|| map.owned_guard());
                go!(Gd { m: &*map, g: &g }, all());
                on(|| drop(g));
            }
            2 => go!(on(|| map.pin()), all()),
            3 => go!(on(|| map.pin_owned()), all()),
            _ => {
                for (i, op) in seg.ops.iter().enumerate() {
                    if seg.form == 4 {
                        let g = on(|| map.guard());
                        go!(Gd { m: &*map, g: &g }, std::iter::once((i, op)));
                        on(|| drop(g));
                    } else {
                        go!(on(|| map.pin()), std::iter::once((i, op)));
                    }
                    if cx.broken {
                        break;
                    }
                }
                if !cx.broken {
                    let g = on(|| map.guard());
                    audit(&mut Gd { m: &*map, g: &g }, &c.keys, &mut m, &mut cx);
                    on(|| drop(g));
                }
            }
        }
        if cx.broken {
            break 'all;
        }
    }
    cx.i.tables = unsafe { ZEROED } - z0;
    on(|| drop(map));
    finish(&mut cx);
    cx.i
}

#[inline(never)]
fn srun_op<K: KeyT, S: HsT, A: SetApi<K, S>>(a: &mut A, op: &SOp, m: &mut Model, cx: &mut Cx) {
    match op {
        SOp::Inj(site, n, inner) => {
            let mut m2 = m.clone();
            if !faulty(*site, *n, || sstep(a, inner, &mut m2, cx)) {
                *m = m2;
                return;
            }
            cx.i.faults += 1;
            cx.stage = Some("panic-safety");
            if matches!(site, Site::Hash | Site::Eq) {
                cx.leaky = true;
            }
            if *site == Site::Hash && !(is_point(inner) && *n == 1) {
                cx.broken = true;
                return;
            }
            let actual = ssnapshot(a.set());
            reconcile(inner, true, m, actual, cx);
            saudit(a, &[], m, cx);
        }
        SOp::Foreign(form, inner) => {
            cx.i.foreign += 1;
            let before = ssnapshot(a.set());
            let stage = cx.stage;
            cx.stage = Some("guard");
            let set = a.set();
            let cell = std::cell::RefCell::new(&mut *cx);
            foreign(*form, |g| {
                let cx = &mut **cell.borrow_mut();
                let mut m2 = m.clone();
                let st: *const Cx = cx;
                if let Some(g) = g.local() {
                    demand_panic(unsafe { &*st }, || sstep(&mut SGd { m: set, g }, inner, &mut m2, cx));
                } else if let Some(g) = g.owned() {
                    demand_panic(unsafe { &*st }, || sstep(&mut SGd { m: set, g }, inner, &mut m2, cx));
                }
            });
            let after = ssnapshot(a.set());
            if before != after {
                cx.bad("guard", &format!("an operation with a foreign guard changed the contents from {before:?} to {after:?}"))
            }
            saudit(a, &[], m, cx);
            cx.stage = stage;
        }
        _ => sstep(a, op, m, cx),
    }
}
#[inline(never)]
fn saudit<K: KeyT, S: HsT, A: SetApi<K, S>>(a: &mut A, keys: &[u32], m: &mut Model, cx: &mut Cx) {
    let (o, c) = (cx.i.ops, cx.cur.clone());
    cx.cur = format!("audit after {c}");
    sstep(a, &SOp::Iter(0), m, cx);
    sstep(a, &SOp::Iter(3), m, cx);
    sstep(a, &SOp::Len, m, cx);
    sstep(a, &SOp::IsEmpty, m, cx);
    for k in keys {
        sstep(a, &SOp::Get(*k), m, cx);
        sstep(a, &SOp::Contains(*k), m, cx);
    }
    cx.i.ops = o;
    cx.cur = c;
}
#[inline(never)]
pub fn run_set<K: KeyT, S: HsT>(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let mut m = Model::new();
    let z0 = unsafe { ZEROED };
    let mut set: Box<HashSet<K, S>> = on(|| Box::new(S::set(c)));
    for (si, seg) in c.segs.iter().enumerate() {
        // HashSet::retain needs exclusive access: with a foreign guard it is only callable here
        for (oi, op) in seg.ops.iter().enumerate() {
            if let SOp::Foreign(form, inner) = op {
                if let SOp::Retain(p) = **inner {
                    cx.at = (si, oi);
                    cx.cur = format!("{op:?} on the set itself");
                    cx.i.foreign += 1;
                    let st: *mut HashSet<K, S> = &mut *set;
                    foreign(*form, |g| {
                        let f = |k: &K| pred(p, k.k(), 0);
                        // Safety: no other reference to the set is live
                        if let Some(g) = g.local() {
                            demand_panic(&cx, || on(|| unsafe { (*st).retain(f, g) }));
                        } else if let Some(g) = g.owned() {
                            demand_panic(&cx, || on(|| unsafe { (*st).retain(f, g) }));
                        }
                    });
                    cx.stage = Some("guard");
                    saudit(&mut on(|| set.pin()), &[], &mut m, &mut cx);
                    cx.stage = None;
                }
            }
        }
        macro_rules! go {
            ($a:expr, $ops:expr) => {{
                let mut a = $a;
                for (oi, op) in $ops {
                    if matches!(op, SOp::Foreign(_, i) if matches!(**i, SOp::Retain(_))) {
                        continue;
                    }
                    cx.at = (si, oi);
                    cx.cur = format!("{op:?}");
                    srun_op(&mut a, op, &mut m, &mut cx);
                    if cx.broken {
                        break;
                    }
                }
                if !cx.broken && (seg.form < 4) {
                    saudit(&mut a, &c.keys, &mut m, &mut cx);
                }
                on(|| drop(a));
            }};
        }
        let all = || seg.ops.iter().enumerate();
        match seg.form {
            0 => {
                let g = on(|| set.guard());
                go!(SGd { m: &*set, g: &g }, all());
                on(|| drop(g));
            }
            1 => {
                let g = on(|| set.owned_guard());
                go!(SGd { m: &*set, g: &g }, all());
                on(|| drop(g));
            }
            2 => go!(on(|| set.pin()), all()),
            3 => go!(on(|| set.pin_owned()), all()),
            _ => {
                for (i, op) in seg.ops.iter().enumerate() {
                    if seg.form == 4 {
                        let g = on(|| set.guard());
                        go!(SGd { m: &*set, g: &g }, std::iter::once((i, op)));
                        on(|| drop(g));
                    } else {
                        go!(on(|| set.pin()), std::iter::once((i, op)));
                    }
                    if cx.broken {
                        break;
                    }
                }
                if !cx.broken {
                    let g = on(|| set.guard());
                    saudit(&mut SGd { m: &*set, g: &g }, &c.keys, &mut m, &mut cx);
                    on(|| drop(g));
                }
            }
        }
        if cx.broken {
            break;
        }
    }
    cx.i.tables = unsafe { ZEROED } - z0;
    on(|| drop(set));
    finish(&mut cx);
    cx.i
}

/// Everything handed over must be gone now.
#[inline(never)]
pub fn finish(cx: &mut Cx) {
    CLONES.with(|c| c.borrow_mut().clear());
    if cx.leaky || cx.broken {
        return; // a second drop is still caught when it happens
    }
    for (i, d) in reg().val_drops.iter().enumerate() {
        if *d != 1 {
            fail("leak", &format!("value #{i} (key {}) was dropped {d} times by the time the map was dropped", reg().val_key[i]));
        }
    }
    for (i, d) in reg().key_drops.iter().enumerate() {
        if *d != 1 {
            fail("leak", &format!("key object #{i} was dropped {d} times by the time the map was dropped"));
        }
    }
    if unsafe { rt_live_count() } != 0 {
        let mut b = vec![0i8; 600];
        let n = unsafe { rt_describe_leak(b.as_mut_ptr(), 600) };
        let t = unsafe { std::ffi::CStr::from_ptr(b.as_ptr()) }.to_string_lossy().to_string();
        fail("leak", &format!("{n} allocations were never freed after the map was dropped: {t}"));
    }
}

pub fn run_scase(c: &SCase) -> SInfo {
    reg_reset();
    seq_reset();
    arm(None);
    let s = sh();
    s.hist.clear();
    unsafe { rt_case_begin(&c.rt, std::ptr::null(), 0) };
    #[allow(static_mut_refs)]
    let Some(i) = (unsafe { crate::RUNNERS }).iter().find_map(|r| r(c)) else { panic!("no runner for {} {}", c.kind, c.layout) };
    unsafe { rt_case_end() };
    i
}
pub const MAP_LAYOUTS: u32 = 13;
pub const SET_LAYOUTS: u32 = 7;
/// (number of distinct keys, uses RandomState)
pub fn layout_info(set: bool, l: u32) -> (u32, bool) {
    if set {
        match l {
            1 | 4 => (u32::MAX, true),
            2 => (256, false),
            3 => (1, false),
            _ => (u32::MAX, false),
        }
    } else {
        match l {
            1 | 8 => (u32::MAX, true),
            2 | 11 => (256, false),
            3 => (65536, false),
            4 | 12 => (1, false),
            _ => (u32::MAX, false),
        }
    }
}

pub const CONV_LAYOUTS: u32 = 12;
pub const SERDE_TYPES: u32 = 9;

#[inline(never)]
pub fn scontents<K: KeyT, S: std::hash::BuildHasher>(m: &HashSet<K, S>) -> Vec<u32> {
    let mut out = vec![];
    on(|| {
        let g = m.guard();
        for k in m.iter(&g) {
            let x = k.k();
            off(|| out.push(x));
        }
    });
    out.sort();
    out
}
