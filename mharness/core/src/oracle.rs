//! Decides whether a recorded history is one a correct map could have produced.
use crate::exec::{Out, Rec, Res};
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act1 {
    /// the key maps to exactly this at some instant
    Is(Option<u32>),
    /// the key is present at some instant
    Present,
    /// atomic transition
    Put(Option<u32>, Option<u32>),
    /// removes the key if it maps to this value, otherwise nothing
    RemIf(u32),
    /// removes the key if present
    Clear,
    /// removes the key, which is present
    Take,
    /// whatever the key maps to, it now maps to this
    Set(u32),
    /// inserts this if the key is absent
    SetIfNone(u32),
}
#[derive(Clone, Debug)]
struct Sub {
    lo: u64,
    hi: u64,
    act: Act1,
    opt: bool,
    rec: usize,
}

fn apply(a: Act1, s: Option<u32>) -> Option<Option<u32>> {
    match a {
        Act1::Is(x) => (x == s).then_some(s),
        Act1::Present => s.is_some().then_some(s),
        Act1::Put(p, q) => (p == s).then_some(q),
        Act1::RemIf(v) => Some(if s == Some(v) { None } else { s }),
        Act1::Clear => Some(None),
        Act1::Take => s.is_some().then_some(None),
        Act1::Set(v) => Some(Some(v)),
        Act1::SetIfNone(v) => Some(s.or(Some(v))),
    }
}

pub struct Verdict {
    pub inconclusive: bool,
    pub overlapped: bool,
    pub same_key_overlap: bool,
}
pub type Violation = (&'static str, String);

/// `thread`: without synchronisation between the clients' threads only the order within each thread counts.
fn segment(ops: &[Sub], start: &BTreeSet<Option<u32>>, budget: &mut u64, thread: Option<&dyn Fn(usize) -> i32>) -> Result<BTreeSet<Option<u32>>, bool> {
    let n = ops.len();
    if n > 120 {
        return Err(true);
    }
    let mand: u128 = ops.iter().enumerate().filter(|(_, o)| !o.opt).fold(0, |a, (i, _)| a | 1 << i);
    let rt = |a: &Sub, b: &Sub| a.hi < b.lo && thread.is_none_or(|t| t(a.rec) == t(b.rec) || t(a.rec) == 0 || t(b.rec) == 0);
    // before[i]: ops that must come before i if they happen at all
    let before: Vec<u128> = (0..n).map(|i| (0..n).filter(|&j| rt(&ops[j], &ops[i])).fold(0u128, |a, j| a | 1 << j)).collect();
    let after: Vec<u128> = (0..n).map(|i| (0..n).filter(|&j| rt(&ops[i], &ops[j])).fold(0u128, |a, j| a | 1 << j)).collect();
    let mut seen: HashSet<(u128, Option<u32>)> = HashSet::new();
    let mut stack: Vec<(u128, Option<u32>)> = start.iter().map(|s| (0, *s)).collect();
    let mut out = BTreeSet::new();
    while let Some((done, st)) = stack.pop() {
        if !seen.insert((done, st)) {
            continue;
        }
        if *budget == 0 {
            return Err(true);
        }
        *budget -= 1;
        if done & mand == mand {
            out.insert(st);
        }
        for i in 0..n {
            let b = 1u128 << i;
            if done & b != 0 || (before[i] & mand) & !done != 0 || after[i] & done != 0 {
                continue;
            }
            if let Some(s2) = apply(ops[i].act, st) {
                stack.push((done | b, s2));
            }
        }
    }
    Ok(out)
}

fn muts(op: &Op) -> bool {
    !matches!(op, Op::Get(_) | Op::GetKv(_) | Op::Contains(_) | Op::Len | Op::IsEmpty | Op::Iter(_) | Op::CloneMap | Op::Debug | Op::CheckHeld | Op::Flush | Op::Unpark(_))
}

/// `nkeys`: logical keys used. `audit`: index of the first audit record in `h`.
///
/// All independent violations are collected; the one that concerns the property under test is reported.
pub fn check(h: &[Rec], case: &Case, audit: usize) -> Result<Verdict, Vec<Violation>> {
    let mut bad: Vec<Violation> = vec![];
    let nosync = case.rt.weak_nosync != 0;
    let thread = |r: usize| h[r].tid as i32;
    let mut keys: BTreeSet<u32> = (0..case.keys).collect();
    for r in h {
        keys.extend(r.key);
        keys.extend(r.calls.iter().map(|c| c.key));
        keys.extend(r.yields.iter().filter_map(|y| y.1));
    }
    let mut per: BTreeMap<u32, Vec<Sub>> = keys.iter().map(|k| (*k, vec![])).collect();
    let mut maxhi = 0;
    for r in h {
        maxhi = maxhi.max(r.ret);
    }
    for (ri, r) in h.iter().enumerate() {
        let iv = |lo, hi, act| Sub { lo, hi, act, opt: false, rec: ri };
        // every closure input was current at some instant between invocation and the closure call
        if !matches!(r.op, Op::Retain(_) | Op::Extend(_)) {
            for c in &r.calls {
                per.get_mut(&c.key).unwrap().push(iv(r.inv, c.t, Act1::Is(c.input)));
            }
        }
        match &r.op {
            Op::Clear => {
                for k in &keys {
                    let m: usize = h
                        .iter()
                        .filter(|o| nosync && o.tid != 0 || o.inv < r.ret && o.ret > r.inv)
                        .map(|o| match &o.op {
                            Op::Extend(ks) => ks.iter().filter(|x| *x == k).count(),
                            _ => (o.key == Some(*k) && matches!(o.res, Res::Inserted(_))) as usize,
                        })
                        .sum();
                    let v = per.get_mut(k).unwrap();
                    v.push(iv(r.inv, r.ret, Act1::Clear));
                    for _ in 0..m.min(6) {
                        v.push(Sub { opt: true, ..iv(r.inv, r.ret, Act1::Clear) });
                    }
                }
            }
            Op::Retain(_) => {
                for k in &keys {
                    let mut shown = false;
                    for c in r.calls.iter().filter(|c| c.key == *k) {
                        shown = true;
                        let id = c.input.unwrap();
                        let v = per.get_mut(k).unwrap();
                        v.push(iv(r.inv, c.t, Act1::Is(Some(id))));
                        if c.out == Out::Keep(false) {
                            // a panic may come between the rejection and the removal
                            v.push(Sub { opt: r.res == Res::Panicked, ..iv(c.t, r.ret, Act1::RemIf(id)) });
                        }
                    }
                    if !shown && r.res != Res::Panicked {
                        per.get_mut(k).unwrap().push(iv(r.inv, r.ret, Act1::Is(None)));
                    }
                }
            }
            Op::Extend(_) => {
                for (i, c) in r.calls.iter().enumerate() {
                    let Out::Insert(id) = c.out else { continue };
                    let last = i + 1 == r.calls.len();
                    let hi = if last { r.ret } else { r.calls[i + 1].t };
                    let act = if case.set { Act1::SetIfNone(id) } else { Act1::Set(id) };
                    per.get_mut(&c.key).unwrap().push(Sub { opt: last && r.res == Res::Panicked, ..iv(c.t, hi, act) });
                }
            }
            Op::Iter(_) | Op::IterAround(..) | Op::CloneMap | Op::Debug => {
                let mut seen: BTreeMap<u32, Vec<(u64, u32)>> = BTreeMap::new();
                for (t, k, id) in &r.yields {
                    let k = k.unwrap();
                    if *id != u32::MAX && crate::types::obj_key(*id) != k {
                        bad.push(("iteration", format!("{:?} by T{} yielded key {k} with value #{id}, which was created for key {}", r.op, r.tid, crate::types::obj_key(*id))));
                    }
                    let s = seen.entry(k).or_default();
                    if *id != u32::MAX && s.iter().any(|x| x.1 == *id) {
                        bad.push(("iteration", format!("{:?} by T{} yielded the entry (key {k}, value #{id}) twice", r.op, r.tid)));
                    }
                    let v = per.get_mut(&k).unwrap();
                    v.push(iv(r.inv, *t, if *id == u32::MAX { Act1::Present } else { Act1::Is(Some(*id)) }));
                    if !s.is_empty() {
                        // the key can only appear again if it went away in between
                        v.push(iv(r.inv, *t, Act1::Is(None)));
                    }
                    s.push((*t, *id));
                }
                for k in &keys {
                    if !seen.contains_key(k) {
                        per.get_mut(k).unwrap().push(iv(r.inv, r.ret, Act1::Is(None)));
                    }
                }
            }
            _ => {}
        }
        if let Res::Num(n) = r.res {
            // a lookup of the counters while writes are in flight is inexact, but it is never out of this world
            let inserts = |o: &Rec| o.calls.iter().filter(|c| matches!(c.out, Out::Insert(_))).count();
            let most: usize = h.iter().filter(|o| o.inv < r.ret).map(|o| if matches!(o.op, Op::Extend(_)) { inserts(o) } else { (o.new.is_some() || inserts(o) > 0) as usize }).sum();
            if n > most {
                bad.push(("len", format!("len() is {n} when at most {most} entries were ever inserted")));
            }
        }
        let Some(k) = r.key else { continue };
        let act = match &r.res {
            Res::Val(x) => match r.op {
                Op::Get(_) | Op::GetKv(_) => Act1::Is(*x),
                _ => Act1::Is(None),
            },
            Res::Bool(true) => Act1::Present,
            Res::Bool(false) => Act1::Is(None),
            Res::Inserted(n) => Act1::Put(None, Some(*n)),
            Res::Updated(o, n) => Act1::Put(Some(*o), Some(*n)),
            Res::Removed(o) => Act1::Put(Some(*o), None),
            Res::Taken => Act1::Take,
            Res::Rejected(c) => Act1::Is(Some(*c)),
            Res::Aborted(n) => Act1::Is(r.calls[*n].input),
            // nothing was committed
            Res::Panicked | Res::Unit | Res::Num(_) => continue,
        };
        per.get_mut(&k).unwrap().push(iv(r.inv, r.ret, act));
    }
    let mut inconclusive = false;
    for (k, v) in &mut per {
        v.sort_by_key(|s| (s.lo, s.hi));
        let mut states: BTreeSet<Option<u32>> = [None].into();
        let mut i = 0;
        let mut budget = 400_000u64;
        while i < v.len() {
            let mut hi = v[i].hi;
            let mut j = i + 1;
            while j < v.len() && (v[j].lo <= hi || nosync && h[v[i].rec].tid != 0 && h[v[j].rec].tid != 0) {
                hi = hi.max(v[j].hi);
                j += 1;
            }
            match segment(&v[i..j], &states, &mut budget, if nosync { Some(&thread) } else { None }) {
                Err(_) => {
                    inconclusive = true;
                    break;
                }
                Ok(s) if s.is_empty() => {
                    let mut m = format!("no order of the operations on key {k} explains their results (possible values before: {states:?}): ");
                    for s in &v[i..j] {
                        let r = &h[s.rec];
                        m += &format!("[{}..{}] T{}#{} {:?} => {:?} as {:?}{}; ", s.lo, s.hi, r.tid, r.idx, r.op, r.res, s.act, if s.opt { " (optional)" } else { "" });
                    }
                    let touched = |f: fn(&Op) -> bool| v[i..j].iter().any(|s| f(&h[s.rec].op));
                    let kind = if touched(|o| matches!(o, Op::Iter(_) | Op::IterAround(..) | Op::CloneMap | Op::Debug)) {
                        "iteration"
                    } else if touched(|o| matches!(o, Op::Clear | Op::Retain(_))) {
                        "bulk"
                    } else if v[i..j].iter().any(|s| s.rec >= audit) {
                        "final-state"
                    } else {
                        "linearizability"
                    };
                    bad.push((kind, m));
                    break;
                }
                Ok(s) => states = s,
            }
            i = j;
        }
    }
    // quiescent audit
    if audit < h.len() {
        let a = &h[audit..];
        let mut want: BTreeMap<u32, u32> = BTreeMap::new();
        for r in a {
            if let (Op::Get(k), Res::Val(Some(id))) = (&r.op, &r.res) {
                want.insert(*k, *id);
            }
        }
        for r in a {
            match (&r.op, &r.res) {
                (Op::Len, Res::Num(n)) if *n != want.len() => {
                    bad.push(("len", format!("len() is {n} with no write in flight, but lookups find {} entries: {want:?}", want.len())));
                }
                (Op::IsEmpty, Res::Bool(b)) if *b != want.is_empty() => {
                    bad.push(("len", format!("is_empty() is {b} with no write in flight, but lookups find {} entries", want.len())));
                }
                (Op::Iter(0), _) => {
                    let got: BTreeMap<u32, u32> = r.yields.iter().map(|y| (y.1.unwrap(), y.2)).collect();
                    if got != want || r.yields.len() != want.len() {
                        bad.push(("iteration", format!("a quiescent iteration yields {:?} but lookups find {want:?}", r.yields)));
                    }
                }
                _ => {}
            }
        }
    }
    if !bad.is_empty() {
        return Err(bad);
    }
    let mut overlapped = false;
    let mut same = false;
    let c: Vec<&Rec> = h[..audit].iter().filter(|r| r.tid != 0).collect();
    for (i, a) in c.iter().enumerate() {
        for b in &c[i + 1..] {
            if a.tid != b.tid && a.inv < b.ret && b.inv < a.ret && (muts(&a.op) || muts(&b.op)) {
                overlapped = true;
                if a.key == b.key || a.key.is_none() || b.key.is_none() {
                    same = true;
                }
            }
        }
    }
    Ok(Verdict { inconclusive, overlapped, same_key_overlap: same })
}
