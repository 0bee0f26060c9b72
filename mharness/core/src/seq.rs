//! Engine S: generated sequential histories of the whole map and set API against ordinary collections.
use crate::exec::pred;
use crate::ffi::*;
use crate::layouts::*;
use crate::spec::{Act, MapCfg};
use crate::types::*;
use papaya::{Compute, Guard, HashMap, HashMapRef, HashSet, HashSetRef, Operation, ResizeMode};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::BuildHasher;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum SOp {
    Get(u32),
    GetKv(u32),
    Contains(u32),
    Insert(u32),
    TryInsert(u32),
    TryInsertWith(u32),
    GetOrInsert(u32),
    GetOrInsertWith(u32),
    Update(u32),
    UpdateOrInsert(u32),
    UpdateOrInsertWith(u32),
    Compute(u32, Act, Act),
    Remove(u32),
    RemoveEntry(u32),
    RemoveIf(u32, u8),
    Clear,
    Retain(u8),
    /// 0 iter, 1 keys, 2 values, 3 IntoIterator
    Iter(u8),
    IterAround(u8, Box<SOp>),
    Len,
    IsEmpty,
    Reserve(u64),
    Extend(Vec<u32>),
    CloneCheck,
    EqCheck(u32),
    Debug,
    Flush,
    InsertRange(u32, u32),
    RemoveRange(u32, u32),
    /// run the operation with a fault armed: user code at the site panics at the n-th call
    Inj(Site, u32, Box<SOp>),
    /// run the operation with a guard of another collector (0 map guard, 1 owned, 2 bare collector, 3 set guard)
    Foreign(u8, Box<SOp>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Seg {
    /// 0 guard, 1 owned guard, 2 pin, 3 pin_owned, 4 a fresh guard per operation, 5 fresh pin per operation
    pub form: u8,
    pub ops: Vec<SOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    /// "map", "set", "capacity", "conv", "serde"
    pub kind: String,
    pub layout: u32,
    /// how the map is constructed, see `build`
    pub builder: u32,
    pub map: MapCfg,
    /// keys the audit looks at
    pub keys: Vec<u32>,
    pub segs: Vec<Seg>,
    pub rt: RtCfg,
    #[serde(default)]
    pub text: String,
    #[serde(default)]
    pub nums: Vec<u64>,
}

#[derive(Default, Clone, Debug)]
pub struct SInfo {
    pub ops: u64,
    pub tables: u64,
    pub faults: u64,
    pub foreign: u64,
    pub known_key_replaced: u64,
    pub replaced: u64,
    pub removed: u64,
    pub bulk: u64,
    pub iters: u64,
    pub extra: u64,
}

/// key -> (identity of the stored key, identity of the value)
/// HashMap::insert over an equal key stores the new key object (known finding of C22)
pub static mut INSERT_MAY_REPLACE_KEY: bool = true;

pub type Model = BTreeMap<u32, (u32, u32)>;

pub fn on<T>(f: impl FnOnce() -> T) -> T {
    let _on = On::new();
    f()
}
pub fn off<T>(f: impl FnOnce() -> T) -> T {
    let _o = Off::new();
    f()
}

// ------------------------------------------------------------------------------------------ API forms
pub trait Api<K: KeyT, V: ValT, S: BuildHasher> {
    type G: Guard;
    const REF: bool;
    fn map(&self) -> &HashMap<K, V, S>;
    fn get<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> Option<&V>;
    fn get_kv<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> Option<(&K, &V)>;
    fn contains<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> bool;
    fn insert(&self, k: K, v: V) -> Option<&V>;
    fn try_insert(&self, k: K, v: V) -> Result<&V, (&V, V)>;
    fn try_insert_with<F: FnOnce() -> V>(&self, k: K, f: F) -> Result<&V, &V>;
    fn get_or_insert(&self, k: K, v: V) -> &V;
    fn get_or_insert_with<F: FnOnce() -> V>(&self, k: K, f: F) -> &V;
    fn update<F: Fn(&V) -> V>(&self, k: K, f: F) -> Option<&V>;
    fn update_or_insert<F: Fn(&V) -> V>(&self, k: K, f: F, v: V) -> &V;
    fn update_or_insert_with<U: Fn(&V) -> V, F: FnOnce() -> V>(&self, k: K, u: U, f: F) -> &V;
    fn compute<'g, F, T>(&'g self, k: K, f: F) -> Compute<'g, K, V, T>
    where
        F: FnMut(Option<(&'g K, &'g V)>) -> Operation<V, T>;
    fn remove<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> Option<&V>;
    fn remove_entry<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> Option<(&K, &V)>;
    fn remove_if<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>, F: FnMut(&K, &V) -> bool>(&self, q: &Q, f: F) -> Result<Option<(&K, &V)>, (&K, &V)>;
    fn clear(&self);
    fn retain<F: FnMut(&K, &V) -> bool>(&mut self, f: F);
    fn iter(&self) -> papaya::Iter<'_, K, V, Self::G>;
    fn keys(&self) -> papaya::Keys<'_, K, V, Self::G>;
    fn values(&self) -> papaya::Values<'_, K, V, Self::G>;
    fn into_iter_ref(&self) -> papaya::Iter<'_, K, V, Self::G>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn reserve(&self, n: usize);
    fn debug(&self, alt: bool) -> String;
    fn flush(&self);
}

pub struct Gd<'a, K, V, S, G> {
    pub m: &'a HashMap<K, V, S>,
    pub g: &'a G,
}

macro_rules! api_body {
    (($self:ident), $m:expr, [$($g:tt)*]) => {
        fn get<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> Option<&V> { $m.get(q $($g)*) }
        fn get_kv<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> Option<(&K, &V)> { $m.get_key_value(q $($g)*) }
        fn contains<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> bool { $m.contains_key(q $($g)*) }
        fn insert(&$self, k: K, v: V) -> Option<&V> { $m.insert(k, v $($g)*) }
        fn try_insert(&$self, k: K, v: V) -> Result<&V, (&V, V)> { $m.try_insert(k, v $($g)*).map_err(|e| (e.current, e.not_inserted)) }
        fn try_insert_with<F: FnOnce() -> V>(&$self, k: K, f: F) -> Result<&V, &V> { $m.try_insert_with(k, f $($g)*) }
        fn get_or_insert(&$self, k: K, v: V) -> &V { $m.get_or_insert(k, v $($g)*) }
        fn get_or_insert_with<F: FnOnce() -> V>(&$self, k: K, f: F) -> &V { $m.get_or_insert_with(k, f $($g)*) }
        fn update<F: Fn(&V) -> V>(&$self, k: K, f: F) -> Option<&V> { $m.update(k, f $($g)*) }
        fn update_or_insert<F: Fn(&V) -> V>(&$self, k: K, f: F, v: V) -> &V { $m.update_or_insert(k, f, v $($g)*) }
        fn update_or_insert_with<U: Fn(&V) -> V, F: FnOnce() -> V>(&$self, k: K, u: U, f: F) -> &V { $m.update_or_insert_with(k, u, f $($g)*) }
        fn compute<'g, F, T>(&'g $self, k: K, f: F) -> Compute<'g, K, V, T> where F: FnMut(Option<(&'g K, &'g V)>) -> Operation<V, T> { $m.compute(k, f $($g)*) }
        fn remove<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> Option<&V> { $m.remove(q $($g)*) }
        fn remove_entry<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> Option<(&K, &V)> { $m.remove_entry(q $($g)*) }
        fn remove_if<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>, F: FnMut(&K, &V) -> bool>(&$self, q: &Q, f: F) -> Result<Option<(&K, &V)>, (&K, &V)> { $m.remove_if(q, f $($g)*) }
        fn reserve(&$self, n: usize) { $m.reserve(n $($g)*) }
        fn len(&$self) -> usize { $m.len() }
        fn is_empty(&$self) -> bool { $m.is_empty() }
    };
}

impl<'a, K: KeyT, V: ValT, S: BuildHasher, G: Guard> Api<K, V, S> for Gd<'a, K, V, S, G> {
    type G = G;
    const REF: bool = false;
    api_body!((self), self.m, [, self.g]);
    fn map(&self) -> &HashMap<K, V, S> {
        self.m
    }
    fn clear(&self) {
        self.m.clear(self.g)
    }
    fn retain<F: FnMut(&K, &V) -> bool>(&mut self, f: F) {
        self.m.retain(f, self.g)
    }
    fn iter(&self) -> papaya::Iter<'_, K, V, G> {
        self.m.iter(self.g)
    }
    fn keys(&self) -> papaya::Keys<'_, K, V, G> {
        self.m.keys(self.g)
    }
    fn values(&self) -> papaya::Values<'_, K, V, G> {
        self.m.values(self.g)
    }
    fn into_iter_ref(&self) -> papaya::Iter<'_, K, V, G> {
        self.m.iter(self.g)
    }
    fn debug(&self, alt: bool) -> String {
        if alt { format!("{:#?}", self.m) } else { format!("{:?}", self.m) }
    }
    fn flush(&self) {
        self.g.flush()
    }
}
impl<'a, K: KeyT, V: ValT, S: BuildHasher, G: Guard> Api<K, V, S> for HashMapRef<'a, K, V, S, G> {
    type G = G;
    const REF: bool = true;
    api_body!((self), self, []);
    fn map(&self) -> &HashMap<K, V, S> {
        HashMapRef::map(self)
    }
    fn clear(&self) {
        HashMapRef::clear(self)
    }
    fn retain<F: FnMut(&K, &V) -> bool>(&mut self, f: F) {
        HashMapRef::retain(self, f)
    }
    fn iter(&self) -> papaya::Iter<'_, K, V, G> {
        HashMapRef::iter(self)
    }
    fn keys(&self) -> papaya::Keys<'_, K, V, G> {
        HashMapRef::keys(self)
    }
    fn values(&self) -> papaya::Values<'_, K, V, G> {
        HashMapRef::values(self)
    }
    fn into_iter_ref(&self) -> papaya::Iter<'_, K, V, G> {
        self.into_iter()
    }
    fn debug(&self, alt: bool) -> String {
        if alt { format!("{:#?}", self) } else { format!("{:?}", self) }
    }
    fn flush(&self) {}
}

// ------------------------------------------------------------------------------------------ context
pub struct Cx {
    pub i: SInfo,
    /// set while or after a fault or a foreign guard: mismatches are reported under this kind
    pub stage: Option<&'static str>,
    /// memory safety only from here on (a hasher panicked inside a resize)
    pub broken: bool,
    /// objects may have been leaked by a panic
    pub leaky: bool,
    pub at: (usize, usize),
    pub cur: String,
    /// what the last extend was given: key, key object, value
    pub plan: Vec<(u32, u32, u32)>,
}
impl Cx {
    pub fn bad(&self, kind: &str, msg: &str) -> ! {
        let k = match (self.stage, kind) {
            (_, "memory" | "drop" | "leak" | "layout") => kind,
            (Some(s), _) => s,
            _ => kind,
        };
        fail(k, &format!("segment {} operation {} ({}): {}", self.at.0, self.at.1, self.cur, msg))
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: T, want: T) {
        if got != want {
            self.bad("model", &format!("{what}: got {got:?}, an ordinary map gives {want:?}"));
        }
    }
    fn eqk<T: PartialEq + std::fmt::Debug>(&self, kind: &str, what: &str, got: T, want: T) {
        if got != want {
            self.bad(kind, &format!("{what}: got {got:?}, an ordinary map gives {want:?}"));
        }
    }
    fn closure(&self, msg: &str) -> ! {
        self.bad("closure", msg)
    }
}
fn kid<K: KeyT>(k: &K) -> (u32, u32) {
    aligned(k);
    on(|| (k.k(), k.inst()))
}
fn vid<V: ValT>(v: &V) -> u32 {
    aligned(v);
    on(|| v.id())
}
fn mk<K: KeyT>(k: u32) -> (K, u32) {
    let x = on(|| K::mk(k));
    let i = x.inst();
    (x, i)
}
fn mv<V: ValT>(k: u32) -> (V, u32) {
    let x = on(|| V::mk(k));
    let i = x.id();
    (x, i)
}

/// Which key objects may be the stored one after an operation on a present key.
enum Ident {
    Keep,
    /// documented to keep the old key (HashMap::insert)
    Insert(u32),
    /// not documented
    Either(u32),
}

macro_rules! lookup {
    ($a:expr, $k:expr, $alt:expr, $m:ident) => {
        if $alt {
            let key = K::mk($k);
            $a.$m(&key)
        } else {
            K::q($k, |q| $a.$m(q))
        }
    };
}

#[inline(never)]
fn expect_key<K: KeyT>(cx: &Cx, what: &str, got: &K, k: u32, inst: u32) {
    let (gk, gi) = kid(got);
    if gk != k {
        cx.bad("model", &format!("{what}: the key is {gk}, not {k}"));
    }
    if gi != inst {
        cx.bad("key-identity", &format!("{what}: key {k} is object #{gi}, the stored one is #{inst}"));
    }
}

/// Runs one operation against the map and the model. Values handed to the map are created with
/// instrumentation on so that their heap parts are audited too.
#[inline(never)]
pub fn step<K: KeyT, V: ValT, S: BuildHasher + Clone + Default, A: Api<K, V, S>>(a: &mut A, op: &SOp, m: &mut Model, cx: &mut Cx) {
    cx.i.ops += 1;
    let alt = cx.i.ops % 3 == 0;
    let mut touched: Option<(u32, Ident)> = None;
    match op {
        SOp::Get(k) => {
            let r = on(|| lookup!(a, *k, alt, get));
            cx.eq("get", r.map(vid), m.get(k).map(|x| x.1));
        }
        SOp::GetKv(k) => {
            let r = on(|| lookup!(a, *k, alt, get_kv));
            cx.eq("get_key_value", r.map(|x| vid(x.1)), m.get(k).map(|x| x.1));
            if let Some((kk, _)) = r {
                expect_key(cx, "get_key_value", kk, *k, m[k].0);
            }
        }
        SOp::Contains(k) => {
            let r = on(|| lookup!(a, *k, alt, contains));
            cx.eq("contains_key", r, m.contains_key(k));
        }
        SOp::Insert(k) => {
            let (key, inst) = mk::<K>(*k);
            let (v, id) = mv::<V>(*k);
            let r = on(|| a.insert(key, v)).map(vid);
            cx.eq("insert", r, m.get(k).map(|x| x.1));
            match m.get_mut(k) {
                Some(x) => {
                    x.1 = id;
                    cx.i.replaced += 1;
                    touched = Some((*k, Ident::Insert(inst)));
                }
                None => {
                    m.insert(*k, (inst, id));
                    touched = Some((*k, Ident::Keep));
                }
            }
        }
        SOp::TryInsert(k) => {
            let (key, inst) = mk::<K>(*k);
            let (v, id) = mv::<V>(*k);
            let r = on(|| a.try_insert(key, v));
            match (r, m.get(k)) {
                (Ok(v), None) => cx.eq("try_insert", vid(v), id),
                (Err((cur, not)), Some(x)) => {
                    cx.eq("try_insert: current", vid(cur), x.1);
                    cx.eq("try_insert: not_inserted", vid(&not), id);
                    on(|| drop(not));
                }
                (r, x) => cx.bad("model", &format!("try_insert succeeded={} but an ordinary map holds {x:?}", r.is_ok())),
            }
            m.entry(*k).or_insert((inst, id));
            touched = Some((*k, Ident::Keep));
        }
        SOp::TryInsertWith(k) | SOp::GetOrInsertWith(k) => {
            let (key, inst) = mk::<K>(*k);
            let made = RefCell::new(vec![]);
            let f = || {
                inject(Site::Closure);
                let v = V::mk(*k);
                let id = v.id();
                off(|| made.borrow_mut().push(id));
                v
            };
            let (ok, got) = if let SOp::TryInsertWith(_) = op {
                match on(|| a.try_insert_with(key, f)) {
                    Ok(v) => (Some(true), vid(v)),
                    Err(v) => (Some(false), vid(v)),
                }
            } else {
                (None, vid(on(|| a.get_or_insert_with(key, f))))
            };
            let made = made.into_inner();
            match m.get(k) {
                Some(x) => {
                    if !made.is_empty() {
                        cx.closure("the closure ran although the key was present")
                    }
                    cx.eq("conditional insert", (ok.unwrap_or(false), got), (false, x.1));
                }
                None => {
                    if made.len() != 1 {
                        cx.closure(&format!("the closure ran {} times", made.len()))
                    }
                    cx.eq("conditional insert", (ok.unwrap_or(true), got), (true, made[0]));
                    m.insert(*k, (inst, made[0]));
                }
            }
            touched = Some((*k, Ident::Keep));
        }
        SOp::GetOrInsert(k) => {
            let (key, inst) = mk::<K>(*k);
            let (v, id) = mv::<V>(*k);
            let r = vid(on(|| a.get_or_insert(key, v)));
            cx.eq("get_or_insert", r, m.get(k).map_or(id, |x| x.1));
            m.entry(*k).or_insert((inst, id));
            touched = Some((*k, Ident::Keep));
        }
        SOp::Update(k) | SOp::UpdateOrInsert(k) | SOp::UpdateOrInsertWith(k) => {
            let (key, inst) = mk::<K>(*k);
            let calls = RefCell::new(vec![]);
            let u = |v: &V| {
                let old = v.id();
                inject(Site::Closure);
                let n = V::mk(*k);
                let id = n.id();
                off(|| calls.borrow_mut().push((old, id)));
                n
            };
            let made = RefCell::new(vec![]);
            let f = || {
                inject(Site::Closure);
                let v = V::mk(*k);
                let id = v.id();
                off(|| made.borrow_mut().push(id));
                v
            };
            let mut fresh = None;
            let r = match op {
                SOp::Update(_) => on(|| a.update(key, u)).map(vid),
                SOp::UpdateOrInsert(_) => {
                    let (v, id) = mv::<V>(*k);
                    fresh = Some(id);
                    Some(vid(on(|| a.update_or_insert(key, u, v))))
                }
                _ => Some(vid(on(|| a.update_or_insert_with(key, u, f)))),
            };
            let (calls, made) = (calls.into_inner(), made.into_inner());
            match m.get_mut(k) {
                Some(x) => {
                    if let Some(c) = calls.iter().find(|c| c.0 != x.1) {
                        cx.closure(&format!("the update function was shown {}, the current value is {}", c.0, x.1))
                    }
                    if calls.is_empty() {
                        cx.closure("the update function never ran although the key was present")
                    }
                    if !made.is_empty() {
                        cx.closure("the insert closure ran although the key was present")
                    }
                    let Some(r) = r else { cx.bad("model", "update returned None for a present key") };
                    if !calls.iter().any(|c| c.1 == r) {
                        cx.bad("model", &format!("the result {r} is not one the update function returned: {calls:?}"))
                    }
                    x.1 = r;
                    cx.i.replaced += 1;
                    touched = Some((*k, Ident::Either(inst)));
                }
                None => {
                    if !calls.is_empty() {
                        cx.closure("the update function ran although the key was absent")
                    }
                    match op {
                        SOp::Update(_) => cx.eq("update", r, None),
                        _ => {
                            if fresh.is_none() && made.len() != 1 {
                                cx.closure(&format!("the insert closure ran {} times", made.len()))
                            }
                            let id = fresh.unwrap_or_else(|| made[0]);
                            cx.eq("update_or_insert", r, Some(id));
                            m.insert(*k, (inst, id));
                        }
                    }
                    touched = Some((*k, Ident::Keep));
                }
            }
        }
        SOp::Compute(k, absent, present) => {
            let (key, inst) = mk::<K>(*k);
            let calls = RefCell::new(vec![]);
            let cxr: &Cx = cx;
            let cur = m.get(k).copied();
            let f = |e: Option<(&K, &V)>| {
                let seen = e.map(|(kk, v)| (kk.k(), kk.inst(), v.id()));
                inject(Site::Closure);
                let act = match (e, absent, present) {
                    (None, x, _) => *x,
                    (Some(_), _, x) => *x,
                };
                let act = match act {
                    Act::Parity => if seen.map_or(0, |s| s.2) % 2 == 0 { Act::Insert } else { Act::Remove },
                    x => x,
                };
                let (r, c) = match act {
                    Act::Insert => {
                        let v = V::mk(*k);
                        let id = v.id();
                        (Operation::Insert(v), Some(id))
                    }
                    Act::Remove => (Operation::Remove, None),
                    _ => (Operation::Abort(77u8), None),
                };
                off(|| {
                    if seen != cur.map(|c| (*k, c.0, c.1)) && seen.map(|s| (s.0, s.2)) != cur.map(|c| (*k, c.1)) {
                        cxr.closure(&format!("compute was shown {seen:?}, the map holds {cur:?}"))
                    }
                    if seen.map(|s| s.1) != cur.map(|c| c.0) {
                        cxr.bad("key-identity", &format!("compute was shown key object {seen:?}, the stored one is {cur:?}"))
                    }
                    calls.borrow_mut().push((act, c))
                });
                r
            };
            let r = on(|| a.compute(key, f));
            let calls = calls.into_inner();
            let Some((act, _)) = calls.first() else { cx.closure("compute never called its closure") };
            let any = |id: u32| calls.iter().any(|c| c.1 == Some(id));
            match (r, cur, act) {
                (Compute::Inserted(kk, v), None, Act::Insert) => {
                    let id = vid(v);
                    if !any(id) {
                        cx.bad("model", "compute inserted a value its closure did not return")
                    }
                    expect_key(cx, "compute", kk, *k, inst);
                    m.insert(*k, (inst, id));
                    touched = Some((*k, Ident::Keep));
                }
                (Compute::Updated { old, new }, Some(c), Act::Insert) => {
                    let id = vid(new.1);
                    if !any(id) {
                        cx.bad("model", "compute stored a value its closure did not return")
                    }
                    expect_key(cx, "compute: old key", old.0, *k, c.0);
                    cx.eq("compute: old value", vid(old.1), c.1);
                    let nk = kid(new.0);
                    if nk.0 != *k || (nk.1 != inst && nk.1 != c.0) {
                        cx.bad("key-identity", &format!("compute: the new key is object {nk:?}, neither the stored nor the given one"))
                    }
                    m.insert(*k, (nk.1, id));
                    cx.i.replaced += 1;
                    touched = Some((*k, Ident::Keep));
                }
                (Compute::Removed(kk, v), Some(c), Act::Remove) => {
                    expect_key(cx, "compute: removed key", kk, *k, c.0);
                    cx.eq("compute: removed value", vid(v), c.1);
                    m.remove(k);
                    cx.i.removed += 1;
                    touched = Some((*k, Ident::Keep));
                }
                (Compute::Aborted(77), _, Act::Abort) => touched = Some((*k, Ident::Keep)),
                (r, c, act) => {
                    let r = match r {
                        Compute::Inserted(..) => "Inserted",
                        Compute::Updated { .. } => "Updated",
                        Compute::Removed(..) => "Removed",
                        Compute::Aborted(_) => "Aborted",
                    };
                    cx.bad("model", &format!("compute reported {r} where the closure decided {act:?} for {c:?}"))
                }
            }
        }
        SOp::Remove(k) => {
            let r = on(|| lookup!(a, *k, alt, remove)).map(vid);
            cx.eq("remove", r, m.remove(k).map(|x| x.1));
            cx.i.removed += r.is_some() as u64;
            touched = Some((*k, Ident::Keep));
        }
        SOp::RemoveEntry(k) => {
            let r = on(|| lookup!(a, *k, alt, remove_entry));
            let x = m.remove(k);
            cx.eq("remove_entry", r.map(|r| vid(r.1)), x.map(|x| x.1));
            if let (Some((kk, _)), Some(x)) = (r, x) {
                expect_key(cx, "remove_entry", kk, *k, x.0);
                cx.i.removed += 1;
            }
            touched = Some((*k, Ident::Keep));
        }
        SOp::RemoveIf(k, p) => {
            let calls = RefCell::new(vec![]);
            let f = |kk: &K, v: &V| {
                let s = (kk.k(), v.id());
                inject(Site::Closure);
                off(|| calls.borrow_mut().push(s));
                pred(*p, s.0, s.1)
            };
            let r = on(|| K::q(*k, |q| a.remove_if(q, f)));
            let calls = calls.into_inner();
            match m.get(k).copied() {
                None => {
                    if !calls.is_empty() {
                        cx.closure("the predicate ran although the key was absent")
                    }
                    if !matches!(r, Ok(None)) {
                        cx.bad("model", "remove_if on an absent key did not return Ok(None)")
                    }
                }
                Some(x) => {
                    if calls.is_empty() || calls.iter().any(|c| *c != (*k, x.1)) {
                        cx.closure(&format!("the predicate was shown {calls:?}, the map holds {x:?}"))
                    }
                    let del = pred(*p, *k, x.1);
                    let (removed, e) = match r {
                        Ok(Some(e)) => (true, e),
                        Err(e) => (false, e),
                        Ok(None) => cx.bad("model", "remove_if on a present key returned Ok(None)"),
                    };
                    cx.eq("remove_if", (removed, vid(e.1)), (del, x.1));
                    expect_key(cx, "remove_if", e.0, *k, x.0);
                    if del {
                        m.remove(k);
                        cx.i.removed += 1;
                    }
                }
            }
            touched = Some((*k, Ident::Keep));
        }
        SOp::Clear => {
            on(|| a.clear());
            cx.i.removed += m.len() as u64;
            cx.i.bulk += 1;
            m.clear();
        }
        SOp::Retain(p) => {
            let calls = RefCell::new(vec![]);
            let f = |kk: &K, v: &V| {
                let s = (kk.k(), v.id());
                inject(Site::Closure);
                off(|| calls.borrow_mut().push(s));
                pred(*p, s.0, s.1)
            };
            on(|| a.retain(f));
            let mut calls = calls.into_inner();
            calls.sort();
            let n = calls.len();
            calls.dedup();
            let want: Vec<(u32, u32)> = m.iter().map(|(k, x)| (*k, x.1)).collect();
            if calls != want || n != want.len() {
                cx.closure(&format!("retain showed its predicate {n} entries {calls:?}, the map holds {want:?}"))
            }
            m.retain(|k, x| pred(*p, *k, x.1));
            cx.i.removed += (n - m.len()) as u64;
            cx.i.bulk += 1;
        }
        SOp::Iter(f) => {
            cx.i.iters += !cx.cur.starts_with("audit") as u64;
            iterate(a, *f, m, cx);
        }
        SOp::IterAround(n, inner) => {
            // an iterator held across a modification of the map; only the entries it must and may yield are fixed
            cx.i.iters += 1;
            let before = m.clone();
            let mut got: Vec<(u32, u32)> = vec![];
            {
                let mut it = on(|| a.iter());
                for _ in 0..*n {
                    if let Some((k, v)) = on(|| it.next()) {
                        got.push((kid(k).0, vid(v)));
                    }
                }
                let g2 = on(|| a.map().guard());
                step(&mut Gd { m: a.map(), g: &g2 }, inner, m, cx);
                on(|| drop(g2));
                loop {
                    let Some((k, v)) = on(|| it.next()) else { break };
                    got.push((kid(k).0, vid(v)));
                    if got.len() > before.len() + m.len() + 8 {
                        cx.bad("iteration", "an iterator does not end")
                    }
                }
                on(|| drop(it));
            }
            let n0 = got.len();
            got.sort();
            got.dedup();
            if got.len() != n0 {
                cx.bad("iteration", &format!("an iterator yielded an entry twice: {got:?}"))
            }
            for (k, v) in &got {
                if before.get(k).map(|x| x.1) != Some(*v) && m.get(k).map(|x| x.1) != Some(*v) {
                    cx.bad("iteration", &format!("an iterator yielded {k}={v}, which was never in the map while it existed"))
                }
            }
            for (k, x) in &before {
                if m.get(k) == Some(x) && !got.contains(&(*k, x.1)) {
                    cx.bad("iteration", &format!("an iterator missed {k}={}, which was present throughout", x.1))
                }
                if m.contains_key(k) && !got.iter().any(|g| g.0 == *k) {
                    cx.bad("iteration", &format!("an iterator missed key {k}, which was present throughout"))
                }
            }
        }
        SOp::Len => {
            let n = on(|| a.len());
            cx.eqk("len", "len", n, m.len());
        }
        SOp::IsEmpty => {
            let n = on(|| a.is_empty());
            cx.eqk("len", "is_empty", n, m.is_empty());
        }
        SOp::Reserve(n) => on(|| a.reserve(*n as usize)),
        SOp::Extend(ks) => {
            cx.plan.clear();
            let mut items: Vec<(K, V)> = vec![];
            for k in ks {
                let (key, inst) = mk::<K>(*k);
                let (v, id) = mv::<V>(*k);
                cx.plan.push((*k, inst, id));
                items.push((key, v));
            }
            {
                let mut mref = a.map();
                let it = items.into_iter().map(|x| {
                    inject(Site::Item);
                    x
                });
                on(|| mref.extend(it));
            }
            let mut cand: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
            for (k, inst, id) in cx.plan.clone() {
                let old = m.get(&k).map(|x| x.0);
                m.insert(k, (old.unwrap_or(inst), id));
                let c = cand.entry(k).or_insert_with(|| old.into_iter().collect());
                c.push(inst);
            }
            arm_pause();
            for (k, c) in cand {
                adopt(a, k, &c, true, m, cx);
            }
        }
        SOp::CloneCheck => {
            let c = on(|| a.map().clone());
            let g = on(|| c.guard());
            let mut got: Vec<(u32, u32)> = vec![];
            {
                let mut it = on(|| c.iter(&g));
                while let Some((k, v)) = on(|| it.next()) {
                    got.push((kid(k).0, on(|| v.class())));
                }
            }
            got.sort();
            let gm = on(|| a.iter().map(|(k, v)| { let x = (k.k(), v.class()); off(|| x) }).collect::<Vec<_>>());
            let mut want = gm.clone();
            want.sort();
            if got != want {
                cx.bad("conv", &format!("a clone holds {got:?}, the original {want:?}"))
            }
            on(|| drop(gm));
            let eq = on(|| c == *a.map());
            if !eq {
                cx.bad("conv", "a clone is not equal to the original")
            }
            // changing the clone must not change the original and the other way round
            let k0 = m.keys().next().copied();
            if let Some(k) = k0 {
                on(|| { K::q(k, |q| { c.remove(q, &g); }) });
                let still = on(|| K::q(k, |q| a.contains(q)));
                if !still {
                    cx.bad("conv", "removing from a clone removed from the original")
                }
                if on(|| c == *a.map()) {
                    cx.bad("conv", "maps of different size compare equal")
                }
            }
            on(|| c.clear(&g));
            cx.eq("len after clearing a clone", on(|| a.len()), m.len());
            on(|| drop(g));
            on(|| drop(c));
        }
        SOp::EqCheck(h) => {
            // the same contents built through another history must be equal, one difference must not be
            let other: HashMap<K, V, S> = on(|| HashMap::builder().hasher(S::default()).capacity(*h as usize % 70).resize_mode(if h % 2 == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1 + *h as usize % 9) }).build());
            on(|| {
                let g = other.guard();
                let mut es: Vec<(K, V)> = a.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                if h % 3 == 0 {
                    es.reverse();
                }
                for (i, (k, v)) in es.into_iter().enumerate() {
                    if (h >> (i % 13)) & 1 == 1 {
                        other.insert(k.clone(), V::mk(k.k()), &g);
                    }
                    other.insert(k, v, &g);
                }
            });
            if !on(|| other == *a.map()) || !on(|| *a.map() == other) {
                cx.bad("conv", "two maps with the same contents compare different")
            }
            if let Some(k) = m.keys().nth(*h as usize % m.len().max(1)).copied() {
                on(|| {
                    let g = other.guard();
                    let v = V::mk(k);
                    other.insert(K::mk(k), v, &g);
                });
                let differs = on(|| { let g = other.guard(); let x = K::q(k, |q| other.get(q, &g).map(|v| v.class())); x }) != on(|| K::q(k, |q| a.get(q).map(|v| v.class())));
                if on(|| other == *a.map()) == differs {
                    cx.bad("conv", "equality ignores a differing value")
                }
                on(|| {
                    let g = other.guard();
                    K::q(k, |q| {
                        other.remove(q, &g);
                    })
                });
                if on(|| other == *a.map()) || on(|| *a.map() == other) {
                    cx.bad("conv", "equality ignores a missing key")
                }
                // same number of entries but another key
                let fresh = (0..K::DOM.min(100_000)).find(|x| !m.contains_key(x));
                if let Some(f) = fresh {
                    on(|| {
                        let g = other.guard();
                        other.insert(K::mk(f), V::mk(f), &g);
                    });
                    if on(|| other == *a.map()) || on(|| *a.map() == other) {
                        cx.bad("conv", "equality ignores a differing key")
                    }
                }
            }
            on(|| drop(other));
        }
        SOp::Debug => {
            let alt = cx.i.ops % 2 == 0;
            let got = on(|| a.debug(alt));
            struct D<K, V>(Vec<(K, V)>);
            impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for D<K, V> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.debug_map().entries(self.0.iter().map(|x| (&x.0, &x.1))).finish()
                }
            }
            let d = on(|| D(a.iter().map(|(k, v)| (k.clone(), v.clone())).collect()));
            let want = on(|| if alt { format!("{d:#?}") } else { format!("{d:?}") });
            if got != want {
                cx.bad("conv", &format!("Debug prints {got}, an ordinary map prints {want}"))
            }
            on(|| drop((got, want, d)));
            // an iterator prints what it has left, without taking it
            let n = (cx.i.ops / 2 % 4) as usize;
            let (t1, t2, k1, v1) = on(|| {
                let g = a.map().guard();
                let (mut it, mut ks, mut vs) = (a.map().iter(&g), a.map().keys(&g), a.map().values(&g));
                for _ in 0..n {
                    it.next();
                    ks.next();
                    vs.next();
                }
                let t1 = if alt { format!("{it:#?}") } else { format!("{it:?}") };
                let _ = (format!("{ks:?}"), format!("{vs:?}"));
                let rest: Vec<(K, V)> = it.map(|(k, v)| (k.clone(), v.clone())).collect();
                let t2 = if alt { format!("{rest:#?}") } else { format!("{rest:?}") };
                (t1, t2, ks.count(), vs.count())
            });
            if t1 != t2 {
                cx.bad("conv", &format!("an iterator prints {t1} with {t2} left"))
            }
            let left = m.len().saturating_sub(n);
            if (k1, v1) != (left, left) {
                cx.bad("conv", &format!("printing keys() and values() iterators with {left} items left leaves {k1} and {v1}"))
            }
            on(|| drop((t1, t2)));
        }
        SOp::Flush => on(|| a.flush()),
        SOp::InsertRange(lo, n) => {
            for k in *lo..*lo + *n {
                step(a, &SOp::Insert(k), m, cx);
            }
        }
        SOp::RemoveRange(lo, n) => {
            for k in *lo..*lo + *n {
                step(a, &SOp::Remove(k), m, cx);
            }
        }
        SOp::Inj(..) | SOp::Foreign(..) => unreachable!(),
    }
    arm_pause();
    if let Some((k, id)) = touched {
        match id {
            Ident::Keep => confirm(a, k, m, cx),
            Ident::Insert(new) => {
                let old = m[&k].0;
                adopt(a, k, &[old, new], true, m, cx);
            }
            Ident::Either(new) => {
                let old = m[&k].0;
                adopt(a, k, &[old, new], false, m, cx);
            }
        }
    }
}

/// The entry of `k` must be the model's.
#[inline(never)]
fn confirm<K: KeyT, V: ValT, S: BuildHasher, A: Api<K, V, S>>(a: &A, k: u32, m: &Model, cx: &Cx) {
    let r = on(|| K::q(k, |q| a.get_kv(q)));
    match (r, m.get(&k)) {
        (None, None) => {}
        (Some((kk, v)), Some(x)) => {
            cx.eq("lookup after the operation", vid(v), x.1);
            expect_key(cx, "lookup after the operation", kk, k, x.0);
        }
        (r, x) => cx.bad("model", &format!("after the operation a lookup of {k} finds {:?}, an ordinary map holds {x:?}", r.map(|r| vid(r.1)))),
    }
}
/// As `confirm`, but the stored key may be any of `insts`; the model takes over which.
#[inline(never)]
fn adopt<K: KeyT, V: ValT, S: BuildHasher, A: Api<K, V, S>>(a: &A, k: u32, insts: &[u32], documented: bool, m: &mut Model, cx: &mut Cx) {
    if let Some((kk, _)) = on(|| K::q(k, |q| a.get_kv(q))) {
        let i = kid(kk).1;
        if insts.contains(&i) {
            if documented && i != insts[0] {
                cx.i.known_key_replaced += 1;
                if !unsafe { INSERT_MAY_REPLACE_KEY } {
                    cx.bad("key-identity", &format!("inserting over an equal key {k} stored the new key object #{i} in place of #{}", insts[0]))
                }
            }
            m.get_mut(&k).unwrap().0 = i;
        }
    }
    confirm(a, k, m, cx);
}

#[inline(never)]
fn iterate<K: KeyT, V: ValT, S: BuildHasher, A: Api<K, V, S>>(a: &A, f: u8, m: &Model, cx: &Cx) {
    macro_rules! drive {
        ($it:expr, $x:expr) => {{
            let mut it = on(|| $it);
            let mut out = vec![];
            while let Some(x) = on(|| it.next()) {
                out.push($x(x));
                if out.len() > m.len() + 8 {
                    cx.bad("iteration", &format!("an iterator yields more than the {} entries of the map", m.len()))
                }
            }
            if on(|| it.next()).is_some() {
                cx.bad("iteration", "an exhausted iterator yielded another item")
            }
            on(|| drop(it));
            out.sort();
            out
        }};
    }
    match f {
        1 => {
            let got: Vec<u32> = drive!(a.keys(), |k: &K| { let x = kid(k); if let Some(e) = m.get(&x.0) { if e.0 != x.1 { cx.bad("key-identity", &format!("keys() yields object #{} for key {}, the stored one is #{}", x.1, x.0, e.0)) } } x.0 });
            cx.eqk("iteration", "keys", got, m.keys().copied().collect());
        }
        2 => {
            let got: Vec<u32> = drive!(a.values(), |v: &V| vid(v));
            let mut want: Vec<u32> = m.values().map(|x| x.1).collect();
            want.sort();
            cx.eqk("iteration", "values", got, want);
        }
        _ => {
            let h = |(k, v): (&K, &V)| { let x = kid(k); if let Some(e) = m.get(&x.0) { if e.0 != x.1 { cx.bad("key-identity", &format!("iter() yields object #{} for key {}, the stored one is #{}", x.1, x.0, e.0)) } } (x.0, vid(v)) };
            let got: Vec<(u32, u32)> = if f == 3 { drive!(a.into_iter_ref(), h) } else { drive!(a.iter(), h) };
            cx.eqk("iteration", "iteration", got, m.iter().map(|(k, x)| (*k, x.1)).collect());
        }
    }
}


// ------------------------------------------------------------------------------------------ sets
pub trait SetApi<K: KeyT, S: BuildHasher> {
    fn set(&self) -> &HashSet<K, S>;
    fn contains<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> bool;
    fn get<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> Option<&K>;
    fn insert(&self, k: K) -> bool;
    fn remove<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&self, q: &Q) -> bool;
    fn clear(&self);
    fn retain(&mut self, f: &mut dyn FnMut(&K) -> bool);
    fn reserve(&self, n: usize);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    /// all keys, through the flavour of iteration asked for
    fn each(&self, flavour: u8, f: &mut dyn FnMut(&K));
    fn debug(&self, alt: bool) -> String;
    fn flush(&self);
}
pub struct SGd<'a, K, S, G> {
    pub m: &'a HashSet<K, S>,
    pub g: &'a G,
}
macro_rules! set_body {
    (($self:ident), $m:expr, [$($g:tt)*]) => {
        fn contains<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> bool { $m.contains(q $($g)*) }
        fn get<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> Option<&K> { $m.get(q $($g)*) }
        fn insert(&$self, k: K) -> bool { $m.insert(k $($g)*) }
        fn remove<Q: ?Sized + std::hash::Hash + papaya::Equivalent<K>>(&$self, q: &Q) -> bool { $m.remove(q $($g)*) }
        fn reserve(&$self, n: usize) { $m.reserve(n $($g)*) }
        fn len(&$self) -> usize { $m.len() }
        fn is_empty(&$self) -> bool { $m.is_empty() }
    };
}
impl<'a, K: KeyT, S: BuildHasher, G: Guard> SetApi<K, S> for SGd<'a, K, S, G> {
    set_body!((self), self.m, [, self.g]);
    fn set(&self) -> &HashSet<K, S> {
        self.m
    }
    fn clear(&self) {
        self.m.clear(self.g)
    }
    fn retain(&mut self, f: &mut dyn FnMut(&K) -> bool) {
        // HashSet::retain needs exclusive access, which a held guard rules out
        self.m.pin().retain(f)
    }
    fn each(&self, _flavour: u8, f: &mut dyn FnMut(&K)) {
        let mut it = self.m.iter(self.g);
        for k in it.by_ref() {
            f(k)
        }
        assert!(it.next().is_none());
    }
    fn debug(&self, alt: bool) -> String {
        if alt { format!("{:#?}", self.m) } else { format!("{:?}", self.m) }
    }
    fn flush(&self) {
        self.g.flush()
    }
}
impl<'a, K: KeyT, S: BuildHasher, G: Guard> SetApi<K, S> for HashSetRef<'a, K, S, G> {
    set_body!((self), self, []);
    fn set(&self) -> &HashSet<K, S> {
        HashSetRef::set(self)
    }
    fn clear(&self) {
        HashSetRef::clear(self)
    }
    fn retain(&mut self, f: &mut dyn FnMut(&K) -> bool) {
        HashSetRef::retain(self, f)
    }
    fn each(&self, flavour: u8, f: &mut dyn FnMut(&K)) {
        if flavour == 3 {
            for k in self {
                f(k)
            }
        } else {
            for k in self.iter() {
                f(k)
            }
        }
    }
    fn debug(&self, alt: bool) -> String {
        if alt { format!("{:#?}", self) } else { format!("{:?}", self) }
    }
    fn flush(&self) {}
}

#[inline(never)]
fn sexpect<K: KeyT>(cx: &Cx, what: &str, k: u32, got: Option<(u32, u32)>, want: Option<u32>) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            if g.0 != k {
                cx.bad("model", &format!("{what}: the key is {}, not {k}", g.0))
            }
            if g.1 != w {
                cx.bad("key-identity", &format!("{what}: key {k} is object #{}, the stored one is #{w}", g.1))
            }
        }
        (g, w) => cx.bad("model", &format!("{what} of {k}: got {g:?}, an ordinary set gives {w:?}")),
    }
}

#[inline(never)]
pub fn sstep<K: KeyT, S: BuildHasher + Clone + Default, A: SetApi<K, S>>(a: &mut A, op: &SOp, m: &mut Model, cx: &mut Cx) {
    cx.i.ops += 1;
    let alt = cx.i.ops % 3 == 0;
    let mut touched = None;
    match op {
        SOp::Get(k) | SOp::GetKv(k) => {
            let r = on(|| lookup!(a, *k, alt, get)).map(kid);
            sexpect::<K>(cx, "get", *k, r, m.get(k).map(|x| x.0));
        }
        SOp::Contains(k) => {
            let r = on(|| lookup!(a, *k, alt, contains));
            cx.eq("contains", r, m.contains_key(k));
        }
        SOp::Insert(k) => {
            let (key, inst) = mk::<K>(*k);
            let r = on(|| a.insert(key));
            cx.eq("insert", r, !m.contains_key(k));
            if m.contains_key(k) {
                cx.i.replaced += 1;
                touched = Some((*k, vec![m[k].0, inst]));
            } else {
                m.insert(*k, (inst, 0));
                touched = Some((*k, vec![inst]));
            }
        }
        SOp::Remove(k) => {
            let r = on(|| lookup!(a, *k, alt, remove));
            cx.eq("remove", r, m.remove(k).is_some());
            cx.i.removed += r as u64;
            touched = Some((*k, vec![]));
        }
        SOp::Clear => {
            on(|| a.clear());
            cx.i.removed += m.len() as u64;
            cx.i.bulk += 1;
            m.clear();
        }
        SOp::Retain(p) => {
            let mut calls = vec![];
            let mut f = |k: &K| {
                let x = k.k();
                inject(Site::Closure);
                off(|| calls.push(x));
                pred(*p, x, x)
            };
            on(|| a.retain(&mut f));
            calls.sort();
            if calls != m.keys().copied().collect::<Vec<_>>() {
                cx.closure(&format!("retain showed its predicate {calls:?}, the set holds {:?}", m.keys().collect::<Vec<_>>()))
            }
            m.retain(|k, _| pred(*p, *k, *k));
            cx.i.removed += (calls.len() - m.len()) as u64;
            cx.i.bulk += 1;
        }
        SOp::Iter(f) => {
            cx.i.iters += !cx.cur.starts_with("audit") as u64;
            sall(a, *f, m, cx)
        }
        SOp::Len => cx.eqk("len", "len", on(|| a.len()), m.len()),
        SOp::IsEmpty => cx.eqk("len", "is_empty", on(|| a.is_empty()), m.is_empty()),
        SOp::Reserve(n) => on(|| a.reserve(*n as usize)),
        SOp::Extend(ks) => {
            cx.plan.clear();
            let mut items: Vec<K> = vec![];
            for k in ks {
                let (key, inst) = mk::<K>(*k);
                cx.plan.push((*k, inst, 0));
                items.push(key);
            }
            {
                let mut r = a.set();
                let it = items.into_iter().map(|x| {
                    inject(Site::Item);
                    x
                });
                on(|| r.extend(it));
            }
            arm_pause();
            let mut cand: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
            for (k, inst, _) in cx.plan.clone() {
                let old = m.get(&k).map(|x| x.0);
                m.insert(k, (old.unwrap_or(inst), 0));
                cand.entry(k).or_insert_with(|| old.into_iter().collect()).push(inst);
            }
            for (k, c) in cand {
                sadopt(a, k, &c, m, cx);
            }
        }
        SOp::CloneCheck => {
            let c = on(|| a.set().clone());
            let g = on(|| c.guard());
            let mut got: Vec<u32> = vec![];
            on(|| {
                for k in c.iter(&g) {
                    let x = k.k();
                    off(|| got.push(x));
                }
            });
            got.sort();
            if got != m.keys().copied().collect::<Vec<_>>() {
                cx.bad("conv", &format!("a cloned set holds {got:?}, the original {:?}", m.keys().collect::<Vec<_>>()))
            }
            if !on(|| c == *a.set()) {
                cx.bad("conv", "a cloned set is not equal to the original")
            }
            on(|| c.clear(&g));
            if on(|| c == *a.set()) != m.is_empty() {
                cx.bad("conv", "set equality ignores missing elements")
            }
            on(|| drop(g));
            on(|| drop(c));
            cx.eq("len after clearing a clone", on(|| a.len()), m.len());
        }
        SOp::EqCheck(h) => {
            let other: HashSet<K, S> = on(|| HashSet::builder().hasher(S::default()).capacity(*h as usize % 70).resize_mode(if h % 2 == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1 + *h as usize % 9) }).build());
            on(|| {
                let g = other.guard();
                for k in m.keys().rev() {
                    other.insert(K::mk(*k), &g);
                    if h % 5 == 0 {
                        let k = K::mk(*k);
                        other.remove(&k, &g);
                        other.insert(k, &g);
                    }
                }
            });
            if !on(|| other == *a.set()) || !on(|| *a.set() == other) {
                cx.bad("conv", "two sets with the same elements compare different")
            }
            if let Some(k) = m.keys().nth(*h as usize % m.len().max(1)).copied() {
                on(|| {
                    let g = other.guard();
                    K::q(k, |q| {
                        other.remove(q, &g);
                    })
                });
                if on(|| other == *a.set()) || on(|| *a.set() == other) {
                    cx.bad("conv", "set equality ignores a missing element")
                }
                if let Some(f) = (0..K::DOM.min(100_000)).find(|x| !m.contains_key(x)) {
                    on(|| {
                        let g = other.guard();
                        other.insert(K::mk(f), &g);
                    });
                    if on(|| other == *a.set()) || on(|| *a.set() == other) {
                        cx.bad("conv", "set equality ignores a differing element")
                    }
                }
            }
            on(|| drop(other));
        }
        SOp::Debug => {
            let alt = cx.i.ops % 2 == 0;
            let got = on(|| a.debug(alt));
            struct D<K>(Vec<K>);
            impl<K: std::fmt::Debug> std::fmt::Debug for D<K> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.debug_set().entries(self.0.iter()).finish()
                }
            }
            let mut ks = vec![];
            on(|| a.each(0, &mut |k| ks.push(k.clone())));
            let d = D(ks);
            let want = on(|| if alt { format!("{d:#?}") } else { format!("{d:?}") });
            if got != want {
                cx.bad("conv", &format!("Debug prints {got}, an ordinary set prints {want}"))
            }
            on(|| drop((got, want, d)));
            let n = (cx.i.ops / 2 % 4) as usize;
            let (t1, t2) = on(|| {
                let g = a.set().guard();
                let mut it = a.set().iter(&g);
                for _ in 0..n {
                    it.next();
                }
                let t1 = if alt { format!("{it:#?}") } else { format!("{it:?}") };
                let rest: Vec<K> = it.cloned().collect();
                let t2 = if alt { format!("{rest:#?}") } else { format!("{rest:?}") };
                (t1, t2)
            });
            if t1 != t2 {
                cx.bad("conv", &format!("an iterator prints {t1} with {t2} left"))
            }
            on(|| drop((t1, t2)));
        }
        SOp::Flush => on(|| a.flush()),
        SOp::InsertRange(lo, n) => {
            for k in *lo..*lo + *n {
                sstep(a, &SOp::Insert(k), m, cx);
            }
        }
        SOp::RemoveRange(lo, n) => {
            for k in *lo..*lo + *n {
                sstep(a, &SOp::Remove(k), m, cx);
            }
        }
        _ => {}
    }
    arm_pause();
    if let Some((k, c)) = touched {
        sadopt(a, k, &c, m, cx);
    }
}
#[inline(never)]
fn sadopt<K: KeyT, S: BuildHasher, A: SetApi<K, S>>(a: &A, k: u32, insts: &[u32], m: &mut Model, cx: &mut Cx) {
    let r = on(|| K::q(k, |q| a.get(q))).map(kid);
    if let (Some(r), Some(x)) = (r, m.get_mut(&k)) {
        if insts.contains(&r.1) {
            if r.1 != insts[0] {
                cx.bad("key-identity", &format!("inserting an equal key {k} again stored the new key object #{} in place of #{}", r.1, insts[0]))
            }
            x.0 = r.1;
        }
    }
    sexpect::<K>(cx, "lookup after the operation", k, r, m.get(&k).map(|x| x.0));
    if on(|| K::q(k, |q| a.contains(q))) != m.contains_key(&k) {
        cx.bad("model", &format!("contains({k}) disagrees with get after the operation"))
    }
}
#[inline(never)]
fn sall<K: KeyT, S: BuildHasher, A: SetApi<K, S>>(a: &A, f: u8, m: &Model, cx: &Cx) {
    let mut got = vec![];
    on(|| {
        a.each(f, &mut |k| {
            let x = (k.k(), k.inst());
            off(|| {
                aligned(k);
                got.push(x);
                if got.len() > m.len() + 8 {
                    cx.bad("model", "a set iterator yields more than the elements of the set")
                }
            })
        })
    });
    got.sort();
    cx.eqk("iteration", "iteration", got.iter().map(|g| g.0).collect::<Vec<_>>(), m.keys().copied().collect());
    for g in got {
        if m[&g.0].0 != g.1 {
            cx.bad("key-identity", &format!("iteration yields object #{} for key {}, the stored one is #{}", g.1, g.0, m[&g.0].0))
        }
    }
}
