//! Generation of sequential cases, one profile per property.
use crate::ffi::RtCfg;
use crate::gen::Rng;
use crate::seq::{SCase, SOp, Seg};
use crate::seqrun::{layout_info, CONV_LAYOUTS, MAP_LAYOUTS, SERDE_TYPES, SET_LAYOUTS};
use crate::spec::{Act, MapCfg};
use crate::types::Site;

#[derive(Clone, Copy, PartialEq)]
enum O {
    Get, GetKv, Contains, Insert, TryInsert, TryInsertWith, GetOrInsert, GetOrInsertWith, Update, UpdateOrInsert,
    UpdateOrInsertWith, Compute, Remove, RemoveEntry, RemoveIf, Clear, Retain, Iter, IterAround, Len, IsEmpty, Reserve,
    Extend, CloneCheck, EqCheck, Debug, Flush, InsertRange, RemoveRange,
}
use O::*;

const PLAIN: &[(u32, O)] = &[
    (4, Get), (2, GetKv), (2, Contains), (14, Insert), (4, TryInsert), (3, TryInsertWith), (3, GetOrInsert), (3, GetOrInsertWith), (4, Update),
    (3, UpdateOrInsert), (3, UpdateOrInsertWith), (6, Compute), (12, Remove), (4, RemoveEntry), (4, RemoveIf), (1, Clear), (1, Retain), (1, Iter),
    (1, IterAround), (1, Len), (1, IsEmpty), (1, Reserve), (1, Extend), (1, Flush), (1, InsertRange), (1, RemoveRange),
];
const POINTS: &[(u32, O)] = &[
    (4, Get), (1, GetKv), (2, Contains), (14, Insert), (7, TryInsert), (10, Remove), (4, RemoveEntry), (1, Iter), (1, Reserve), (2, InsertRange), (2, RemoveRange),
];
const ATOMIC: &[(u32, O)] = &[
    (1, Get), (3, Insert), (2, TryInsert), (4, TryInsertWith), (4, GetOrInsert), (4, GetOrInsertWith), (5, Update), (5, UpdateOrInsert), (5, UpdateOrInsertWith), (9, Compute), (3, Remove), (6, RemoveIf),
    (1, Reserve), (2, InsertRange), (2, RemoveRange), (1, Clear), (1, Retain),
];
const GROWING: &[(u32, O)] = &[
    (4, Get), (1, GetKv), (2, Contains), (8, Insert), (2, TryInsert), (2, GetOrInsertWith), (3, Update), (2, UpdateOrInsert), (3, Compute), (6, Remove), (2, RemoveIf), (5, Reserve),
    (6, InsertRange), (6, RemoveRange), (1, Clear), (1, Retain), (2, Iter), (1, Len), (1, Extend),
];
const ITERS: &[(u32, O)] = &[(6, Iter), (9, IterAround), (6, Insert), (4, Remove), (2, Update), (1, Compute), (2, Reserve), (3, InsertRange), (3, RemoveRange), (1, Clear), (1, Retain), (1, CloneCheck)];
const BULKY: &[(u32, O)] = &[(5, Clear), (9, Retain), (8, Insert), (4, Remove), (3, Update), (2, TryInsert), (2, Compute), (2, Get), (2, Reserve), (6, InsertRange), (3, RemoveRange)];
const COUNTS: &[(u32, O)] = &[
    (8, Len), (4, IsEmpty), (9, Insert), (8, Remove), (2, TryInsert), (2, GetOrInsertWith), (2, UpdateOrInsert), (1, Update), (3, Compute), (2, RemoveIf), (2, RemoveEntry), (2, Clear), (2, Retain), (1, Reserve), (2, Extend), (2, InsertRange), (2, RemoveRange),
];
const SETPLAIN: &[(u32, O)] = &[
    (6, Get), (5, Contains), (18, Insert), (14, Remove), (1, Clear), (2, Retain), (2, Iter), (1, Len), (1, IsEmpty), (1, Reserve), (2, Extend), (1, Flush), (1, InsertRange), (1, RemoveRange),
];
const CONV: &[(u32, O)] = &[
    (8, Insert), (5, Remove), (1, Update), (1, Clear), (1, Retain), (4, Extend), (4, CloneCheck), (5, EqCheck), (3, Debug), (1, InsertRange), (1, RemoveRange), (1, Reserve), (1, Iter),
];
const IDENT: &[(u32, O)] = &[
    (1, Get), (3, GetKv), (8, Insert), (5, TryInsert), (4, TryInsertWith), (4, GetOrInsert), (4, GetOrInsertWith), (3, Update), (3, UpdateOrInsert), (3, UpdateOrInsertWith),
    (7, Compute), (5, Remove), (4, RemoveEntry), (4, RemoveIf), (2, Iter), (2, Retain), (1, Reserve), (1, Extend), (1, InsertRange), (1, RemoveRange),
];
const GUARDED: &[(u32, O)] = &[
    (4, Get), (3, GetKv), (3, Contains), (4, Insert), (3, TryInsert), (3, TryInsertWith), (3, GetOrInsert), (3, GetOrInsertWith), (3, Update),
    (3, UpdateOrInsert), (3, UpdateOrInsertWith), (4, Compute), (4, Remove), (3, RemoveEntry), (3, RemoveIf), (3, Clear), (3, Retain), (4, Iter), (3, Reserve),
];
const FAULTY: &[(u32, O)] = &[
    (2, Get), (1, Contains), (5, Insert), (3, TryInsert), (6, TryInsertWith), (2, GetOrInsert), (6, GetOrInsertWith), (7, Update), (6, UpdateOrInsert), (6, UpdateOrInsertWith),
    (9, Compute), (3, Remove), (2, RemoveEntry), (6, RemoveIf), (6, Retain), (5, Extend), (2, CloneCheck), (1, Reserve), (1, InsertRange),
];

/// the operations of a table that the kind of collection has
fn for_kind(t: &[(u32, O)], set: bool) -> Vec<(u32, O)> {
    t.iter().copied().filter(|x| !set || matches!(x.1, Get | Contains | Insert | Remove | Clear | Retain | Iter | Len | IsEmpty | Reserve | Extend | CloneCheck | EqCheck | Debug | Flush | InsertRange | RemoveRange)).collect()
}

struct Pool {
    hot: Vec<u32>,
    dom: u32,
    next: u32,
    few: bool,
    /// entries are large: keep the number of allocations down
    heavy: bool,
}

fn key(r: &mut Rng, p: &mut Pool) -> u32 {
    if !p.few && r.p(12) {
        p.next += 1;
        return p.next % p.dom;
    }
    r.pick(&p.hot)
}

fn op(r: &mut Rng, o: O, p: &mut Pool) -> SOp {
    let acts = [Act::Insert, Act::Insert, Act::Remove, Act::Abort, Act::Parity];
    let k = key(r, p);
    match o {
        Get => SOp::Get(k),
        GetKv => SOp::GetKv(k),
        Contains => SOp::Contains(k),
        Insert => SOp::Insert(k),
        TryInsert => SOp::TryInsert(k),
        TryInsertWith => SOp::TryInsertWith(k),
        GetOrInsert => SOp::GetOrInsert(k),
        GetOrInsertWith => SOp::GetOrInsertWith(k),
        Update => SOp::Update(k),
        UpdateOrInsert => SOp::UpdateOrInsert(k),
        UpdateOrInsertWith => SOp::UpdateOrInsertWith(k),
        Compute => SOp::Compute(k, r.pick(&[Act::Insert, Act::Insert, Act::Abort]), r.pick(&acts)),
        Remove => SOp::Remove(k),
        RemoveEntry => SOp::RemoveEntry(k),
        RemoveIf => SOp::RemoveIf(k, r.pick(&[0, 2, 4, 5, 6, 1])),
        Clear => SOp::Clear,
        Retain => SOp::Retain(r.pick(&[1, 1, 2, 3, 4, 5, 0])),
        Iter => SOp::Iter(r.r(0, 3) as u8),
        IterAround => {
            let inner = r.w(&[(4, Insert), (3, Remove), (1, Reserve), (1, Clear), (2, Update), (1, Retain), (2, Compute)]);
            SOp::IterAround(r.r(0, 5) as u8, Box::new(op(r, inner, p)))
        }
        Len => SOp::Len,
        IsEmpty => SOp::IsEmpty,
        Reserve => SOp::Reserve(r.pick(&[0, 1, 4, 7, 8, 10, 20, 40, 70, 130])),
        Extend => {
            let n = r.pick(&[0, 1, 2, 5, 9]);
            SOp::Extend((0..n).map(|_| key(r, p)).collect())
        }
        CloneCheck => SOp::CloneCheck,
        EqCheck => SOp::EqCheck(r.r(0, 100_000)),
        Debug => SOp::Debug,
        Flush => SOp::Flush,
        InsertRange => {
            if p.few {
                return SOp::Insert(k);
            }
            let n = r.w(&[(6, 10u32), (3, 40), (1, 150)]).min(p.dom / 2).min(if p.heavy { 12 } else { 150 });
            let lo = r.n((p.dom - n).min(400) as u64) as u32;
            SOp::InsertRange(lo, n)
        }
        RemoveRange => {
            if p.few {
                return SOp::Remove(k);
            }
            let n = r.w(&[(6, 10u32), (3, 40), (1, 150)]).min(p.dom / 2).min(if p.heavy { 12 } else { 150 });
            let lo = r.n((p.dom - n).min(400) as u64) as u32;
            SOp::RemoveRange(lo, n)
        }
    }
}

fn rtcfg(r: &mut Rng) -> RtCfg {
    RtCfg { policy: 2, cpus: r.w(&[(2, 1u32), (2, 2), (3, 8)]), seed: r.u64(), fair_after: 20_000_000, step_limit: 20_000_000, solo_limit: 0, ..Default::default() }
}

fn blank(r: &mut Rng, kind: &str) -> SCase {
    SCase {
        kind: kind.into(),
        layout: 0,
        builder: 0,
        map: MapCfg { blocking: r.p(45), chunk: r.w(&[(15, 1usize), (15, 2), (10, 3), (10, 8), (10, 64), (2, 0), (1, usize::MAX), (1, 1 << 63)]), capacity: 0, hasher: 2, batch: r.w(&[(4, 1usize), (2, 2), (2, 8), (2, 32)]) },
        keys: vec![],
        segs: vec![],
        rt: rtcfg(r),
        text: String::new(),
        nums: vec![],
    }
}

pub fn gen_s(prop: &str, seed: u64) -> SCase {
    let r = &mut Rng::new(seed ^ 0x5E9);
    match prop {
        "C15" => return capacity(r),
        "C11" => return churn(r),
        "C21" => return serde_gen(r),
        "C16" if r.p(35) => return conv(r),
        "C10" if r.p(15) => return conv(r),
        _ => {}
    }
    let set = match prop {
        "C01" | "C04" => false,
        "C02" => true,
        "C03" | "C05" | "C06" | "C07" | "C08" | "C13" => r.p(10),
        _ => r.p(25),
    };
    let mut c = blank(r, if set { "set" } else { "map" });
    c.layout = match prop {
        "C22" => 0,
        "C10" => r.w(&[(7, 0u32), (2, 1)]),
        "C18" => r.w(&[(7, 0u32), (1, 1)]),
        "C19" => if set { r.r(2, SET_LAYOUTS - 1) } else { r.r(2, MAP_LAYOUTS - 1) },
        "C02" => r.w(&[(6, 0u32), (2, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6)]),
        "C17" => r.w(&[(6, 0u32), (2, 1), (1, 4)]),
        "C16" => r.w(&[(8, 0u32), (2, 1), (1, 2), (1, 3), (1, 5), (1, 8), (1, 9)]),
        _ => r.w(&[(8, 0u32), (2, 1), (1, 2), (1, 3), (1, 5), (1, 7), (1, 8), (1, 9)]),
    };
    if set {
        c.layout = c.layout.min(SET_LAYOUTS - 1);
    }
    let (dom, random) = layout_info(set, c.layout);
    c.builder = r.w(&[(8, 0u32), (2, 1), (1, 2), (1, 3), (1, 4), (1, 5)]);
    c.map.capacity = r.w(&[(5, 0usize), (2, 1), (3, 6), (3, 12), (2, 24), (1, 33), (1, 100)]);
    // few keys under colliding hashers, many under spreading ones
    let few = !random && c.builder != 5 && r.p(45);
    c.map.hasher = if few { r.pick(&[0u32, 3, 4, 5, 6, 0, 3, 4, 7]) } else { r.pick(&[1u32, 2, 2]) };
    if c.map.hasher == 7 && (set && c.layout == 2 || !set && matches!(c.layout, 2 | 11)) {
        c.map.hasher = 4; // u8 keys can exceed the cluster
    }
    let flood = if matches!(prop, "C05" | "C13") { 4 } else { 1 };
    let nk = if few && c.map.hasher < 7 { r.w(&[(9, 3u32), (12, 8), (9, 14), (6, 20), (flood, 32), (flood, 45), (flood, 58)]) } else if few { r.w(&[(3, 3u32), (4, 8), (3, 14), (2, 20)]) } else { r.w(&[(3, 4u32), (4, 12), (2, 40)]) }.min(dom);
    let base = if few || r.p(50) || dom < 1000 { 0 } else { r.n((dom - 1000).min(60_000) as u64) as u32 };
    let mut p = Pool { hot: (0..nk).map(|i| (base + i) % dom).collect(), dom, next: 500 % dom.max(1), few, heavy: if set { c.layout == 6 } else { matches!(c.layout, 7 | 11) } };
    let table: &[(u32, O)] = match (prop, set) {
        ("C16", _) => CONV,
        ("C22", false) => IDENT,
        ("C03", false) => POINTS,
        ("C04", false) => ATOMIC,
        ("C05" | "C13", false) => GROWING,
        ("C06", false) => ITERS,
        ("C07", false) => BULKY,
        ("C08", false) => COUNTS,
        (_, true) => SETPLAIN,
        _ => PLAIN,
    };
    let mut table: Vec<(u32, O)> = table.to_vec();
    // phases: mostly filling, mostly emptying, mixed
    match r.n(4) {
        0 => table.iter_mut().filter(|x| matches!(x.1, Remove | RemoveEntry | RemoveIf | Clear | Retain | RemoveRange)).for_each(|x| x.0 = (x.0 + 2) / 3),
        1 => table.iter_mut().filter(|x| matches!(x.1, Remove | RemoveEntry | RemoveRange)).for_each(|x| x.0 *= 2),
        _ => {}
    }
    let nseg = r.r(1, 4);
    for _ in 0..nseg {
        let n = r.w(&[(3, 8u32), (4, 24), (2, 60)]);
        let mut ops = vec![];
        for _ in 0..n {
            let o = r.w(&table);
            if prop == "C17" && r.p(35) {
                let o = r.w(&for_kind(GUARDED, set));
                let inner = op(r, o, &mut p);
                ops.push(SOp::Foreign(r.r(0, 3) as u8, Box::new(inner)));
                continue;
            }
            if prop == "C18" && r.p(35) {
                let o = r.w(&for_kind(FAULTY, set));
                let inner = op(r, o, &mut p);
                let inner = match inner {
                    SOp::InsertRange(lo, n) => SOp::Extend((lo..lo + n.min(40)).collect()),
                    x => x,
                };
                let closure = matches!(o, TryInsertWith | GetOrInsertWith | Update | UpdateOrInsert | UpdateOrInsertWith | Compute | RemoveIf | Retain);
                let site = match o {
                    Extend | InsertRange => r.w(&[(4, Site::Item), (2, Site::Hash), (2, Site::Eq)]),
                    CloneCheck => r.w(&[(5, Site::Clone), (1, Site::Hash)]),
                    Reserve => Site::Hash,
                    Retain => r.w(&[(8, Site::Closure), (1, Site::Hash)]),
                    _ if closure => r.w(&[(7, Site::Closure), (1, Site::Hash), (2, Site::Eq)]),
                    _ => r.w(&[(3, Site::Hash), (6, Site::Eq)]),
                };
                let nth = match (site, o) {
                    (Site::Hash, Extend | CloneCheck | Reserve | Retain | InsertRange) => r.r(1, 6),
                    // a key is hashed first; later hashes belong to a resize
                    (Site::Hash, _) => if r.p(90) { 1 } else { r.r(2, 8) },
                    (Site::Closure, Retain) | (Site::Clone, _) | (Site::Item, _) => r.r(1, 12),
                    (Site::Closure, _) => 1,
                    _ => r.w(&[(5, 1u32), (3, 2), (2, 4)]),
                };
                ops.push(SOp::Inj(site, nth, Box::new(inner)));
                continue;
            }
            ops.push(op(r, o, &mut p));
        }
        c.segs.push(Seg { form: r.r(0, 5) as u8, ops });
    }
    // now and then a large map: thousands of entries, then what is left of them after more operations
    if !few && dom > 100_000 && !p.heavy && matches!(prop, "C01" | "C02" | "C05" | "C06" | "C07" | "C08" | "C10") && r.n(if matches!(prop, "C01" | "C02") { 2500 } else { 400 }) == 0 {
        let n = r.w(&[(3, 1000u32), (3, 3000), (2, 9000), (1, 25_000)]);
        let n = n + r.n(n as u64) as u32;
        let mut ops = vec![SOp::InsertRange(0, n)];
        if r.p(70) {
            let lo = r.n(n as u64) as u32;
            ops.push(SOp::RemoveRange(lo, (n - lo).min(r.n(n as u64) as u32 + 1)));
        }
        for _ in 0..r.r(0, 6) {
            let o = r.w(&table);
            ops.push(op(r, o, &mut p));
        }
        let at = r.n(c.segs.len() as u64 + 1) as usize;
        c.segs.insert(at, Seg { form: r.r(0, 5) as u8, ops });
        c.map.chunk = r.pick(&[64, 64, 8, c.map.chunk]);
    }
    c.keys = p.hot.clone();
    if prop == "C19" {
        c.rt.misalign = r.p(60) as u32;
    }
    c
}

fn capacity(r: &mut Rng) -> SCase {
    let mut c = blank(r, "capacity");
    c.layout = r.r(0, 1);
    c.builder = r.r(0, 4);
    c.map.hasher = r.w(&[(6, 1u32), (2, 2)]);
    let size = |r: &mut Rng| -> u64 {
        match r.n(8) {
            0 => r.n(4),
            1 => r.n(20),
            2 => 1 << r.n(11),
            3 => (1u64 << r.r(1, 10)) + 1,
            4 => (1u64 << r.r(2, 10)) - 1,
            // around three quarters of a power of two
            5 => ((3u64 << r.r(1, 8)) + r.n(3)).saturating_sub(1),
            6 => r.n(300),
            _ => r.n(1500),
        }
    };
    c.map.capacity = if r.p(30) { 0 } else { size(r) as usize };
    if r.p(20) {
        c.nums.extend([0, 0]);
    }
    let mut live = 0u64;
    let mut cap = c.map.capacity as u64;
    if r.p(12) {
        // a reservation while the table is being shrunk or has just been
        c.map.capacity = 0;
        c.map.hasher = 1;
        c.builder = r.r(0, 3);
        let n = r.r(500, 1500) as u64;
        let again = n * r.r(40, 140) as u64 / 100;
        live = again + 1;
        cap = cap.max(n.max(again));
        c.nums.extend([3, n, 12, 0, 3, again.max(500), 1, again.max(500)]);
    }
    let n = r.r(1, 7);
    for _ in 0..n {
        match r.w(&[(3, 0u32), (10, 1), (3, 2), (7, 3), (3, 4), (2, 5), (1, 6), (2, 7), (1, 8), (2, 10), (1, 11)]) {
            1 => {
                let n = if r.p(60) { cap.saturating_sub(live) + r.n(3) } else { size(r) };
                live += n;
                c.nums.extend([1, n]);
            }
            2 => {
                let n = if r.p(50) { live.saturating_sub(r.n(8)) } else { size(r) };
                live = live.saturating_sub(n);
                c.nums.extend([2, n]);
            }
            3 => {
                let n = size(r);
                cap = cap.max(live + n);
                c.nums.extend([3, n]);
            }
            4 => {
                let n = if live < 10 && r.p(50) { 40 * cap.max(64) + 200 } else { size(r) };
                c.nums.extend([4, n.min(20_000)]);
            }
            5 => {
                let n = [u64::MAX, u64::MAX - 1, u64::MAX / 8, u64::MAX / 8 + 1, 1 << 63, 1 << 62, 1 << 61, (1 << 60) + 1, (1 << 59) + 1, isize::MAX as u64][r.n(10) as usize];
                c.nums.extend([5, n]);
            }
            7 | 8 => {
                let code = 7 + r.n(2);
                c.nums.extend([code, size(r)]);
            }
            10 => {
                let n = size(r).min(300);
                live += n;
                c.nums.extend([10, n]);
            }
            x => {
                if x == 6 {
                    live = 0;
                }
                c.nums.extend([x as u64, 0]);
            }
        }
    }
    c
}

fn churn(r: &mut Rng) -> SCase {
    let mut c = blank(r, "churn");
    c.builder = r.w(&[(8, 0u32), (2, 1), (1, 4)]);
    c.map.capacity = r.w(&[(4, 0usize), (2, 6), (1, 100)]);
    c.map.hasher = r.pick(&[1u32, 2]);
    c.map.batch = r.w(&[(3, 1usize), (2, 8), (2, 32), (1, 100)]);
    let live = r.w(&[(3, 1u64), (3, 5), (3, 20), (1, 60)]);
    let n = r.w(&[(4, 400u64), (4, 1500), (1, 4000)]);
    c.nums = vec![live, n, r.n(4)];
    c
}

fn conv(r: &mut Rng) -> SCase {
    let mut c = blank(r, "conv");
    c.layout = r.r(0, CONV_LAYOUTS - 1);
    c.builder = r.r(0, 5);
    c.map.capacity = r.w(&[(5, 0usize), (2, 3), (2, 20)]);
    c.map.hasher = r.pick(&[1u32, 2]);
    let n = r.w(&[(2, 0u32), (2, 1), (1, 2), (2, 3), (1, 5), (2, 8), (2, 13), (3, 30), (1, 120)]);
    let span = r.pick(&[1u32, 3, 10, 60, 1000, 70_000]);
    c.keys = (0..n).map(|_| r.n(span as u64) as u32).collect();
    let m = r.w(&[(3, 0u32), (2, 2), (3, 12), (1, 60)]);
    c.nums = vec![r.n(25)];
    for _ in 0..m {
        c.nums.push(r.n(span as u64));
    }
    c
}

// ------------------------------------------------------------------------------------------ JSON texts
fn ws(r: &mut Rng, o: &mut String) {
    if r.p(10) {
        o.push_str(r.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
    }
}
fn jstr(r: &mut Rng, o: &mut String) {
    o.push('"');
    for _ in 0..r.w(&[(1, 0u32), (6, 1), (3, 2), (1, 6)]) {
        o.push_str(r.pick(&["a", "b", "c", "\\n", "\\\"", "\\\\", "\\u00e9", "\\ud83d\\ude00", "é", "0", "{", ":", ",", " "]));
    }
    o.push('"');
}
fn jint(r: &mut Rng, o: &mut String, lo: i64, hi: i64) {
    let v = match r.n(6) {
        0 => lo,
        1 => hi,
        2 => lo + r.n(4) as i64,
        _ => (lo.max(-50) + r.n(100) as i64).clamp(lo, hi),
    };
    o.push_str(&v.to_string());
}
/// a key or value of the kind: 0 u16, 1 string, 2 list of i32, 3 i64, 4 optional bool, 5 map of string to u8, 6 pair of u8 and bool
fn jval(r: &mut Rng, o: &mut String, kind: u32) {
    if r.p(2) {
        o.push_str(r.pick(&["null", "true", "1.5", "-1", "\"x\"", "[]", "{}", "99999999999999999999", "1e3", "[1,2,3]"]));
        return;
    }
    match kind {
        0 => jint(r, o, 0, 65535),
        1 => jstr(r, o),
        2 => {
            o.push('[');
            for i in 0..r.n(4) {
                if i > 0 {
                    o.push(',');
                }
                jint(r, o, i32::MIN as i64, i32::MAX as i64);
            }
            o.push(']');
        }
        3 => jint(r, o, i64::MIN, i64::MAX),
        4 => o.push_str(r.pick(&["null", "true", "false"])),
        5 => {
            o.push('{');
            for i in 0..r.n(3) {
                if i > 0 {
                    o.push(',');
                }
                jstr(r, o);
                o.push(':');
                jint(r, o, 0, 255);
            }
            o.push('}');
        }
        _ => {
            o.push('[');
            jint(r, o, 0, 255);
            o.push(',');
            o.push_str(r.pick(&["true", "false"]));
            o.push(']');
        }
    }
}
fn serde_gen(r: &mut Rng) -> SCase {
    let mut c = blank(r, "serde");
    c.layout = r.r(0, SERDE_TYPES - 1);
    if c.layout == 8 {
        let n = r.w(&[(2, 0u32), (3, 1), (3, 5), (3, 20), (1, 200)]);
        let span = r.pick(&[1u64, 5, 50, 5000]);
        c.keys = (0..n).map(|_| r.n(span) as u32).collect();
        let h = [0u64, 1, 5, n as u64, n as u64 + 3, 4095, 4096, 4097, 1 << 20, 1 << 31, 1 << 40, 1 << 58, 1 << 60, 1 << 61, 1 << 63, u64::MAX, u64::MAX - 1, isize::MAX as u64][r.n(18) as usize];
        let set = r.n(2);
        let fail = if r.p(60) { 0 } else { 1 + r.n(n as u64 + 1) };
        c.nums = vec![r.n(6), h, fail, r.n(2), if r.p(90) { set } else { 1 - set }, set];
        return c;
    }
    let mut o = String::new();
    let n = r.w(&[(2, 0u32), (3, 1), (5, 4), (5, 12), (2, 60), (1, 200)]);
    let set = c.layout >= 5;
    o.push(if set { '[' } else { '{' });
    for i in 0..n {
        if i > 0 {
            o.push(',');
        }
        ws(r, &mut o);
        match c.layout {
            0 | 3 => {
                o.push('"');
                if c.layout == 0 { jint(r, &mut o, 0, 65535) } else { jint(r, &mut o, i64::MIN, i64::MAX) }
                o.push('"');
            }
            1 | 2 | 4 => jstr(r, &mut o),
            5 => jval(r, &mut o, 1),
            6 => jval(r, &mut o, 3),
            _ => jval(r, &mut o, 6),
        }
        ws(r, &mut o);
        if !set {
            o.push(':');
            ws(r, &mut o);
            jval(r, &mut o, [0, 1, 2, 4, 5][c.layout as usize]);
            ws(r, &mut o);
        }
    }
    o.push(if set { ']' } else { '}' });
    ws(r, &mut o);
    // mutations: cut, delete, duplicate, replace, splice
    if r.p(45) {
        let mut b: Vec<char> = o.chars().collect();
        for _ in 0..r.w(&[(5, 1u32), (2, 2), (1, 5)]) {
            let l = b.len() as u64;
            let i = r.n(l + 1) as usize;
            match r.n(6) {
                0 => b.truncate(i),
                1 if i < b.len() => {
                    b.remove(i);
                }
                2 => b.insert(i, r.pick(&['{', '}', '[', ']', ',', ':', '"', '0', '-', '.', 'e', 'n', '\\', '\u{1}', ' ', '9'])),
                3 if i < b.len() => b[i] = r.pick(&['{', '}', '[', ']', ',', ':', '"', '1', '-', 't', '\u{7f}']),
                4 => {
                    let j = (i + r.n(12) as usize).min(b.len());
                    let part: Vec<char> = b[i..j].to_vec();
                    for (k, x) in part.into_iter().enumerate() {
                        b.insert(i + k, x);
                    }
                }
                _ => {
                    let j = (i + r.n(12) as usize).min(b.len());
                    b.drain(i..j);
                }
            }
        }
        o = b.into_iter().collect();
    }
    c.text = o;
    c
}

/// Smaller variants of a failing case, most promising first.
pub fn shrink_s(c: &SCase) -> Vec<SCase> {
    let mut out = vec![];
    for i in 0..c.segs.len() {
        if c.segs.len() > 1 {
            let mut d = c.clone();
            d.segs.remove(i);
            out.push(d);
        }
    }
    for i in 0..c.segs.len() {
        let n = c.segs[i].ops.len();
        let mut sz = n / 2;
        while sz >= 1 {
            let mut j = 0;
            while j < n {
                let mut d = c.clone();
                d.segs[i].ops.drain(j..(j + sz).min(n));
                out.push(d);
                j += sz;
            }
            if out.len() > 200 {
                break;
            }
            sz /= 2;
        }
        for j in 0..n {
            let smaller: Vec<SOp> = match &c.segs[i].ops[j] {
                SOp::InsertRange(lo, n) if *n > 1 => vec![SOp::InsertRange(*lo, n / 2), SOp::InsertRange(lo + n / 2, n - n / 2)],
                SOp::RemoveRange(lo, n) if *n > 1 => vec![SOp::RemoveRange(*lo, n / 2), SOp::RemoveRange(lo + n / 2, n - n / 2)],
                SOp::Extend(ks) if !ks.is_empty() => vec![SOp::Extend(ks[..ks.len() / 2].to_vec()), SOp::Extend(ks[1..].to_vec())],
                SOp::IterAround(n, x) => {
                    let mut v = vec![(**x).clone()];
                    if *n > 0 {
                        v.push(SOp::IterAround(n - 1, x.clone()));
                    }
                    v
                }
                SOp::Inj(s, n, x) if *n > 1 => vec![SOp::Inj(*s, n - 1, x.clone())],
                _ => vec![],
            };
            for s in smaller {
                let mut d = c.clone();
                d.segs[i].ops[j] = s;
                out.push(d);
            }
        }
        if c.segs[i].form != 5 {
            let mut d = c.clone();
            d.segs[i].form = 5;
            out.push(d);
        }
    }
    if c.kind == "capacity" {
        let n = c.nums.len() / 2;
        for i in 0..n {
            let mut d = c.clone();
            d.nums.drain(2 * i..2 * i + 2);
            out.push(d);
        }
        for i in 0..n {
            let v = c.nums[2 * i + 1];
            if c.nums[2 * i] != 5 && v > 1 {
                for w in [v / 2, v - 1] {
                    let mut d = c.clone();
                    d.nums[2 * i + 1] = w;
                    out.push(d);
                }
            }
        }
    } else if c.kind == "churn" {
        for (i, w) in [(1, c.nums[1] / 2), (1, c.nums[1] * 3 / 4), (0, c.nums[0] / 2)] {
            let mut d = c.clone();
            d.nums[i] = w;
            if d.nums != c.nums {
                out.push(d);
            }
        }
    } else if c.kind == "conv" {
        for i in 1..c.nums.len() {
            let mut d = c.clone();
            d.nums.remove(i);
            out.push(d);
        }
    }
    if matches!(c.kind.as_str(), "conv" | "serde" | "map" | "set") {
        for i in 0..c.keys.len() {
            let mut d = c.clone();
            d.keys.remove(i);
            out.push(d);
        }
    }
    let t: Vec<char> = c.text.chars().collect();
    if !t.is_empty() {
        let mut sz = t.len() / 2;
        while sz >= 1 && out.len() < 400 {
            let mut j = 0;
            while j < t.len() {
                let mut d = c.clone();
                let mut u = t.clone();
                u.drain(j..(j + sz).min(t.len()));
                d.text = u.into_iter().collect();
                out.push(d);
                j += sz;
            }
            sz /= 2;
        }
    }
    for cap in [0, c.map.capacity / 2] {
        if cap < c.map.capacity {
            let mut d = c.clone();
            d.map.capacity = cap;
            out.push(d);
        }
    }
    out
}
