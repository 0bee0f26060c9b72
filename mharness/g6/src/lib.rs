//! Conversions, cloning, comparison (C16).
use mcore::ffi::*;
use mcore::layouts::*;
use mcore::seq::*;
use mcore::seqrun::*;
use mcore::types::*;
use papaya::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::RandomState;

// ------------------------------------------------------------------------------------------ conversions (C16)
/// Iterator with a chosen size hint.
struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}
fn hint<I: ExactSizeIterator>(i: I, h: u64) -> Hint<I> {
    let n = i.len();
    match h % 5 {
        0 => Hint(i, n, Some(n)),
        1 => Hint(i, 0, None),
        2 => Hint(i, n / 2, None),
        3 => Hint(i, n, None),
        // wrong, which safe code may be
        _ => Hint(i, n + 50, Some(n + 50)),
    }
}
fn cbad(m: String) -> ! {
    fail("conv", &m)
}

#[inline(never)]
fn contents<K: KeyT, V: ValT, S: std::hash::BuildHasher>(m: &HashMap<K, V, S>) -> Vec<(u32, u32)> {
    let mut out = vec![];
    on(|| {
        let g = m.guard();
        for (k, v) in m.iter(&g) {
            let x = (k.k(), v.class());
            off(|| out.push(x));
        }
    });
    out.sort();
    out
}

#[inline(never)]
fn array_map<K: KeyT, V: ValT>(items: &mut Vec<(K, V)>) -> HashMap<K, V, RandomState> {
    macro_rules! arr {
        ($n:literal) => {{
            let a: [(K, V); $n] = off(|| std::mem::take(items)).try_into().ok().unwrap();
            HashMap::from(a)
        }};
    }
    match items.len() {
        0 => arr!(0),
        1 => arr!(1),
        2 => arr!(2),
        3 => arr!(3),
        5 => arr!(5),
        8 => arr!(8),
        _ => {
            off(|| items.truncate(13));
            if items.len() == 13 { arr!(13) } else { off(|| std::mem::take(items)).into_iter().collect() }
        }
    }
}
#[inline(never)]
fn array_set<K: KeyT>(items: &mut Vec<K>) -> HashSet<K, RandomState> {
    macro_rules! arr {
        ($n:literal) => {{
            let a: [K; $n] = off(|| std::mem::take(items)).try_into().ok().unwrap();
            HashSet::from(a)
        }};
    }
    match items.len() {
        0 => arr!(0),
        1 => arr!(1),
        2 => arr!(2),
        3 => arr!(3),
        5 => arr!(5),
        8 => arr!(8),
        _ => {
            off(|| items.truncate(13));
            if items.len() == 13 { arr!(13) } else { off(|| std::mem::take(items)).into_iter().collect() }
        }
    }
}

#[inline(never)]
fn conv_map<K: KeyT, V: ValT, S: HsT>(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let h = c.nums.first().copied().unwrap_or(0);
    let gen_items = || {
        let mut items: Vec<(K, V)> = vec![];
        let mut want: BTreeMap<u32, u32> = BTreeMap::new();
        for k in &c.keys {
            let k = k % K::DOM;
            let (key, v) = on(|| (K::mk(k), V::mk(k)));
            want.insert(k, v.class());
            items.push((key, v));
        }
        (items, want)
    };
    let flat = |w: &BTreeMap<u32, u32>| w.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>();
    // FromIterator
    let (items, want) = gen_items();
    let a: HashMap<K, V, S> = { let it = items.into_iter(); on(|| hint(it, h).collect()) };
    if contents(&a) != flat(&want) {
        cbad(format!("collecting {:?} gives {:?}, an ordinary map {:?}", c.keys, contents(&a), flat(&want)))
    }
    if on(|| a.len()) != want.len() {
        cbad(format!("a collected map has len {} with {} keys", on(|| a.len()), want.len()))
    }
    // Extend of an existing map
    let (items, want2) = gen_items();
    let base: HashMap<K, V, S> = on(|| S::map(c));
    let mut bw: BTreeMap<u32, u32> = BTreeMap::new();
    for k in c.nums.iter().skip(1) {
        let k = (*k as u32) % K::DOM;
        on(|| {
            let v = V::mk(k);
            off(|| bw.insert(k, v.class()));
            base.pin().insert(K::mk(k), v);
        });
    }
    {
        let mut r = &base;
        let it = items.into_iter();
        on(|| r.extend(hint(it, h / 5)));
    }
    bw.extend(want2);
    if contents(&base) != flat(&bw) {
        cbad(format!("extending by {:?} gives {:?}, an ordinary map {:?}", c.keys, contents(&base), flat(&bw)))
    }
    if on(|| base.len()) != bw.len() {
        cbad(format!("an extended map has len {} with {} keys", on(|| base.len()), bw.len()))
    }
    // clone, equality in both directions and over different hashers' tables
    let cl = on(|| base.clone());
    if contents(&cl) != contents(&base) {
        cbad("a clone differs from its original".into())
    }
    if !on(|| cl == base) || !on(|| base == cl) || !on(|| base == base) {
        cbad("a clone is not equal to its original".into())
    }
    let differ = contents(&a) != contents(&base);
    if on(|| a == base) == differ || on(|| base == a) == differ {
        cbad(format!("equality of {:?} and {:?} is reported as {}", contents(&a), contents(&base), differ))
    }
    on(|| {
        cl.pin().clear();
        off(|| {
            if contents(&base) != flat(&bw) {
                cbad("clearing a clone changed the original".into())
            }
        });
        drop(cl)
    });
    // arrays
    let (mut items, _) = gen_items();
    let want3: BTreeMap<u32, u32> = { let n = if items.len() > 13 { 13 } else { items.len() }; items.iter().take(n).map(|x| (x.0.k(), x.1.class())).collect() };
    let d = {
        let mut its = items.split_off(0);
        if its.len() > 13 {
            on(|| its.truncate(13));
        }
        on(|| array_map(&mut its))
    };
    if contents(&d) != flat(&want3) {
        cbad(format!("From<array> gives {:?}, an ordinary map {:?}", contents(&d), flat(&want3)))
    }
    // Default and IntoIterator of a pinned view
    let e: HashMap<K, V, S> = on(HashMap::default);
    if !on(|| e.is_empty()) || !contents(&e).is_empty() {
        cbad("a default map is not empty".into())
    }
    if on(|| e == base) != bw.is_empty() || on(|| base == e) != bw.is_empty() {
        cbad("comparison with an empty map is wrong".into())
    }
    {
        let p = on(|| base.pin());
        let mut got: Vec<(u32, u32)> = vec![];
        on(|| {
            for (k, v) in &p {
                let x = (k.k(), v.class());
                off(|| got.push(x));
            }
        });
        got.sort();
        if got != flat(&bw) {
            cbad("iterating over &pin differs from the contents".into())
        }
        let po = on(|| base.pin_owned());
        if on(|| po.into_iter().count()) != bw.len() || on(|| po.keys().count()) != bw.len() || on(|| po.values().count()) != bw.len() {
            cbad("iterators over pin_owned differ from the contents".into())
        }
        let (x, y) = on(|| (format!("{p:?}"), format!("{:?}", p.map())));
        if x.len() != y.len() {
            cbad(format!("Debug of the pinned view {x} and of the map {y} differ"))
        }
        on(|| drop((x, y)));
        on(|| drop(po));
        on(|| drop(p));
    }
    cx.i.ops = c.keys.len() as u64;
    cx.i.extra = bw.len() as u64;
    cx.i.replaced = (c.keys.len() - want.len()) as u64;
    on(|| drop((a, base, d, e)));
    finish(&mut cx);
    cx.i
}
#[inline(never)]
fn conv_set<K: KeyT, S: HsT>(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let h = c.nums.first().copied().unwrap_or(0);
    let gen_items = || c.keys.iter().map(|k| on(|| K::mk(k % K::DOM))).collect::<Vec<K>>();
    let want: BTreeSet<u32> = c.keys.iter().map(|k| k % K::DOM).collect();
    let flat = |w: &BTreeSet<u32>| w.iter().copied().collect::<Vec<_>>();
    let a: HashSet<K, S> = { let it = gen_items().into_iter(); on(|| hint(it, h).collect()) };
    if scontents(&a) != flat(&want) || on(|| a.len()) != want.len() {
        cbad(format!("collecting {:?} gives {:?} (len {}), an ordinary set {:?}", c.keys, scontents(&a), on(|| a.len()), want))
    }
    let base: HashSet<K, S> = on(|| S::set(c));
    let mut bw: BTreeSet<u32> = BTreeSet::new();
    for k in c.nums.iter().skip(1) {
        let k = (*k as u32) % K::DOM;
        bw.insert(k);
        on(|| {
            base.pin().insert(K::mk(k));
        });
    }
    {
        let mut r = &base;
        let it = gen_items().into_iter();
        on(|| r.extend(hint(it, h / 5)));
    }
    bw.extend(want.iter());
    if scontents(&base) != flat(&bw) || on(|| base.len()) != bw.len() {
        cbad(format!("extending by {:?} gives {:?}, an ordinary set {:?}", c.keys, scontents(&base), bw))
    }
    let cl = on(|| base.clone());
    if scontents(&cl) != flat(&bw) || !on(|| cl == base) || !on(|| base == cl) {
        cbad("a cloned set differs from its original".into())
    }
    let differ = want != bw;
    if on(|| a == base) == differ || on(|| base == a) == differ {
        cbad(format!("equality of {want:?} and {bw:?} is reported as {differ}"))
    }
    on(|| cl.pin().clear());
    if scontents(&base) != flat(&bw) {
        cbad("clearing a cloned set changed the original".into())
    }
    let mut its = gen_items();
    if its.len() > 13 {
        on(|| its.truncate(13));
    }
    let w3: BTreeSet<u32> = its.iter().map(|k| k.k()).collect();
    let d = on(|| array_set(&mut its));
    if scontents(&d) != flat(&w3) {
        cbad(format!("From<array> gives {:?}, an ordinary set {:?}", scontents(&d), w3))
    }
    let e: HashSet<K, S> = on(HashSet::default);
    if !on(|| e.is_empty()) || on(|| e == base) != bw.is_empty() || on(|| base == e) != bw.is_empty() {
        cbad("a default set is not an empty one".into())
    }
    {
        let p = on(|| base.pin());
        let mut got: Vec<u32> = vec![];
        on(|| {
            for k in &p {
                let x = k.k();
                off(|| got.push(x));
            }
        });
        got.sort();
        if got != flat(&bw) {
            cbad("iterating over &pin of a set differs from the contents".into())
        }
        let po = on(|| base.pin_owned());
        if on(|| po.into_iter().count()) != bw.len() {
            cbad("iterating over pin_owned of a set differs from the contents".into())
        }
        on(|| drop(po));
        on(|| drop(p));
    }
    cx.i.ops = c.keys.len() as u64;
    cx.i.extra = bw.len() as u64;
    cx.i.replaced = (c.keys.len() - want.len()) as u64;
    on(|| drop((a, base, cl, d, e)));
    finish(&mut cx);
    cx.i
}
/// `Extend` by reference, for `Copy` elements.
#[inline(never)]
fn conv_copy(c: &SCase) -> SInfo {
    let mut cx = new_cx();
    let h = c.nums.first().copied().unwrap_or(0);
    let items: Vec<(K16, V16)> = c.keys.iter().map(|k| (K16::mk(k % 65536), V16::mk(*k))).collect();
    let map: HashMap<K16, V16, Bh> = on(|| Bh::map(c));
    let set: HashSet<K16, Bh> = on(|| Bh::set(c));
    let mut want: BTreeMap<u32, u32> = BTreeMap::new();
    for k in c.nums.iter().skip(1) {
        let (k, v) = (K16::mk((*k % 65536) as u32), V16::mk(0));
        want.insert(k.k(), v.id());
        on(|| {
            map.pin().insert(k, v);
            set.pin().insert(k);
        });
    }
    {
        let mut r = &map;
        let it = items.iter().map(|x| (&x.0, &x.1));
        on(|| r.extend(hint(it, h)));
        let mut r = &set;
        let it = items.iter().map(|x| &x.0);
        on(|| r.extend(hint(it, h / 5)));
    }
    for (k, v) in &items {
        want.insert(k.k(), v.id());
    }
    let w: Vec<(u32, u32)> = want.iter().map(|(k, v)| (*k, *v)).collect();
    if contents(&map) != w {
        cbad(format!("extending by references gives {:?}, an ordinary map {:?}", contents(&map), w))
    }
    if scontents(&set) != want.keys().copied().collect::<Vec<_>>() {
        cbad(format!("extending a set by references gives {:?}, an ordinary set {:?}", scontents(&set), want.keys()))
    }
    cx.i.ops = c.keys.len() as u64;
    cx.i.extra = want.len() as u64;
    on(|| drop((map, set)));
    finish(&mut cx);
    cx.i
}

pub fn run(c: &SCase) -> Option<SInfo> {
    if c.kind != "conv" {
        return None;
    }
    Some(match c.layout {
        0 => conv_map::<Key, Val, Bh>(c),
        1 => conv_map::<Key, Val, RandomState>(c),
        2 => conv_map::<String, VStr, RandomState>(c),
        3 => conv_map::<K8, V128, Bh>(c),
        4 => conv_map::<KBox, VBox, Bh>(c),
        5 => conv_map::<K0, V8, Bh>(c),
        6 => conv_set::<Key, Bh>(c),
        7 => conv_set::<Key, RandomState>(c),
        8 => conv_set::<String, RandomState>(c),
        9 => conv_set::<K8, Bh>(c),
        10 => conv_set::<KBig, Bh>(c),
        _ => conv_copy(c),
    })
}
