//! Executes one case: prelude on T0, concurrent programs on T1..Tn, quiescent audit on T0.
use crate::ffi::*;
use crate::spec::*;
use crate::types::*;
use crate::seq::{Api, Gd, SGd, SetApi};
use papaya::{Compute, Guard, HashMap, HashMapRef, HashSet, HashSetRef, LocalGuard, Operation, OwnedGuard, ResizeMode};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

pub type Map = HashMap<Key, Val, Bh>;
pub type Set = HashSet<Key, Bh>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out {
    Insert(u32),
    Remove,
    Abort,
    Keep(bool),
    Misuse,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub t: u64,
    pub key: u32,
    pub input: Option<u32>,
    pub out: Out,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Unit,
    Val(Option<u32>),
    Bool(bool),
    /// key absent before, `new` stored
    Inserted(u32),
    /// `old` replaced by `new`
    Updated(u32, u32),
    Removed(u32),
    /// whatever was present was removed
    Taken,
    /// nothing changed, this is the current value the operation reported
    Rejected(u32),
    /// compute aborted in the state of call number n
    Aborted(usize),
    Num(usize),
    /// a panic in user code escaped from the call
    Panicked,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub tid: u32,
    pub idx: u32,
    pub op: Op,
    pub inv: u64,
    pub ret: u64,
    pub key: Option<u32>,
    pub new: Option<u32>,
    pub res: Res,
    pub calls: Vec<Call>,
    pub yields: Vec<(u64, Option<u32>, u32)>,
}

pub struct Shared {
    pub map: *const Map,
    /// the set under test; then `map` is null
    pub set: *const Set,
    pub hist: Vec<Rec>,
    pub time: u64,
    pub threads: Vec<std::thread::Thread>,
    pub slot: Option<Slot>,
    /// a guard that several threads use at once
    pub shared: Option<OwnedGuard<'static>>,
    pub case: *const Case,
    pub zeroed_in_threads: u64,
    pub given: u64,
    pub progs: Vec<Thread>,
}
pub struct Slot {
    g: G,
    held: Vec<Held>,
}
static mut SH: Option<Shared> = None;
#[allow(static_mut_refs)]
pub fn sh() -> &'static mut Shared {
    unsafe {
        SH.get_or_insert_with(|| Shared {
            map: std::ptr::null(),
            set: std::ptr::null(),
            hist: vec![],
            time: 0,
            threads: vec![],
            slot: None,
            shared: None,
            case: std::ptr::null(),
            zeroed_in_threads: 0,
            given: 0,
            progs: vec![],
        })
    }
}
/// Timestamp of a point the client can observe (invocation, closure call, yield, return). Real-time order between two client-
/// visible points only exists through synchronisation, which drains the store buffer.
pub fn tick() -> u64 {
    unsafe { rt_flush_mine() }
    let s = sh();
    s.time += 1;
    s.time
}
static SLOT_SYNC: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
pub struct Held {
    key: *const Key,
    val: *const Val,
    k: u32,
    id: u32,
}
unsafe impl Send for Held {}

fn check_held(h: &[Held]) {
    for x in h {
        if !x.val.is_null() {
            let _on = On::new();
            let id = unsafe { (*x.val).read() };
            let _o = Off::new();
            if id != x.id {
                fail("memory", &format!("a held reference to value #{} now denotes value #{id}", x.id));
            }
        }
        if !x.key.is_null() {
            let _on = On::new();
            let k = unsafe { (*x.key).read() };
            let _o = Off::new();
            if k != x.k {
                fail("memory", &format!("a held reference to key {} now denotes key {k}", x.k));
            }
            if x.val.is_null() && reg().set_mode && unsafe { (*x.key).inst } != x.id {
                fail("memory", &format!("a held reference to key object #{} of key {k} now denotes another object", x.id));
            }
        }
    }
}

pub fn pred(p: u8, k: u32, id: u32) -> bool {
    match p {
        0 => true,
        1 => false,
        2 => id % 2 == 0,
        3 => k % 2 == 0,
        _ => mix((id as u64) << 8 | p as u64) & 1 == 0,
    }
}

fn okey(op: &Op) -> Option<u32> {
    match op {
        Op::Get(k) | Op::GetKv(k) | Op::Contains(k) | Op::Insert(k) | Op::TryInsert(k) | Op::TryInsertWith(k) | Op::GetOrInsert(k)
        | Op::GetOrInsertWith(k) | Op::Update(k) | Op::UpdateOrInsert(k) | Op::UpdateOrInsertWith(k) | Op::Compute(k, ..) | Op::Remove(k)
        | Op::RemoveEntry(k) | Op::RemoveIf(k, _) => Some(*k),
        _ => None,
    }
}

/// The key object handed to the operation is not in the map.
fn stored_nothing(op: &Op, res: &Res) -> bool {
    match op {
        Op::Insert(_) => *res == Res::Bool(true),
        Op::Update(_) => *res == Res::Val(None),
        Op::TryInsert(_) | Op::TryInsertWith(_) | Op::GetOrInsert(_) | Op::GetOrInsertWith(_) => matches!(res, Res::Rejected(_)),
        Op::Compute(..) => matches!(res, Res::Aborted(_) | Res::Removed(_)),
        _ => false,
    }
}

fn rd(v: &Val) -> u32 {
    let _on = On::new();
    v.read()
}

struct Ctx<'a> {
    tid: u32,
    idx: u32,
    held: &'a mut Vec<Held>,
    keep: bool,
    inject: Option<(Site, u32)>,
}
impl Ctx<'_> {
    fn hold(&mut self, k: Option<&Key>, v: Option<&Val>, kk: u32, id: u32) {
        if self.keep && self.held.len() < 24 {
            self.held.push(Held {
                key: k.map_or(std::ptr::null(), |k| k as *const _),
                val: v.map_or(std::ptr::null(), |v| v as *const _),
                k: kk,
                id,
            });
        }
    }
}

/// The elements of an `extend`, created as they are asked for.
struct Items<'a, F> {
    ks: &'a [u32],
    i: usize,
    make: F,
}
impl<T, F: FnMut(u32) -> T> Iterator for Items<'_, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        unsafe { rt_point() }
        inject(Site::Item);
        let k = *self.ks.get(self.i)?;
        self.i += 1;
        let x = (self.make)(k);
        unsafe { rt_point() }
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.ks.len() - self.i;
        if self.ks.len() % 2 == 0 { (n, Some(n)) } else { (0, None) }
    }
}

fn exec<A: Api<Key, Val, Bh> + 'static>(ap: *mut A, op: &Op, c: &mut Ctx) {
    reg().op[c.tid as usize & 7] += 1;
    let opno = reg().op[c.tid as usize & 7];
    // Safety of the lifetime: the harness drops `held` references before the guard.
    let a: &'static A = unsafe { &*ap };
    let map: &'static Map = unsafe { &*sh().map };
    let calls: RefCell<Vec<Call>> = RefCell::new(vec![]);
    let mut yields: Vec<(u64, Option<u32>, u32)> = vec![];
    let mut new = None;
    let mut key = None;
    let log = |k: u32, input: Option<u32>, out: Out| {
        let _o = Off::new();
        let t = tick();
        calls.borrow_mut().push(Call { t, key: k, input, out });
    };
    let inv = tick();
    let mut ret = 0;
    // Runs the call under instrumentation and takes the return timestamp right after it.
    macro_rules! call {
        ($e:expr) => {{
            arm(c.inject.take());
            may_panic(matches!(op, Op::Compute(_, Act::Misuse, _)));
            let on = On::new();
            let r = catch_unwind(AssertUnwindSafe(|| $e));
            drop(on);
            let fired = fired();
            arm(None);
            may_panic(false);
            ret = tick();
            match r {
                Ok(r) => {
                    if fired { fail("panic-safety", &format!("{op:?} returned although user code it called panicked")) }
                    r
                }
                Err(p) => {
                    if fired != p.is::<Injected>() || !fired && !calls.borrow().iter().any(|c| c.out == Out::Misuse) {
                        fail("panic", &format!("{op:?} panicked although no user code did"))
                    }
                    { let _on = On::new(); drop(p); }
                    let by = (c.tid, reg().op[c.tid as usize & 7]);
                    reg().panicked.push(by);
                    let calls = calls.borrow().clone();
                    sh().hist.push(Rec { tid: c.tid, idx: c.idx, op: op.clone(), inv, ret, key: key.or(okey(op)), new, res: Res::Panicked, calls, yields });
                    return;
                }
            }
        }};
    }
    // user closures may panic after they have looked at their argument
    let boom = |k: u32, input: Option<u32>| {
        if about_to_fire(Site::Closure) { log(k, input, Out::Abort) }
        inject(Site::Closure);
    };
    let point = || unsafe { rt_point() };
    let res = match op {
        Op::Get(k) => {
            key = Some(*k);
            let r = call!(a.get(&Q(*k)));
            let id = r.map(rd);
            if let Some(v) = r { c.hold(None, Some(v), *k, id.unwrap()) }
            Res::Val(id)
        }
        Op::GetKv(k) => {
            key = Some(*k);
            let r = call!(a.get_kv(&Q(*k)));
            match r {
                Some((kk, v)) => {
                    let id = rd(v);
                    let kr = { let _on = On::new(); kk.read() };
                    if kr != *k { fail("linearizability", &format!("get_key_value({k}) returned key {kr}")) }
                    c.hold(Some(kk), Some(v), *k, id);
                    Res::Val(Some(id))
                }
                None => Res::Val(None),
            }
        }
        Op::Contains(k) => {
            key = Some(*k);
            Res::Bool(call!(a.contains(&Q(*k))))
        }
        Op::Insert(k) => {
            key = Some(*k);
            let v = Val::new(*k);
            new = Some(v.id as u32);
            let kk = Key::new(*k);
            let r = call!(a.insert(kk, v));
            match r {
                Some(old) => {
                    let o = rd(old);
                    c.hold(None, Some(old), *k, o);
                    Res::Updated(o, new.unwrap())
                }
                None => Res::Inserted(new.unwrap()),
            }
        }
        Op::TryInsert(k) => {
            key = Some(*k);
            let v = Val::new(*k);
            new = Some(v.id as u32);
            let kk = Key::new(*k);
            let r = call!(a.try_insert(kk, v));
            match r {
                Ok(v) => {
                    let i = rd(v);
                    if Some(i) != new { fail("closure", &format!("try_insert({k}) returned value #{i} instead of the inserted #{}", new.unwrap())) }
                    c.hold(None, Some(v), *k, i);
                    Res::Inserted(i)
                }
                Err(e) => {
                    let cur = rd(e.0);
                    let ni = rd(&e.1);
                    if Some(ni) != new { fail("closure", "try_insert returned a different value as not inserted") }
                    c.hold(None, Some(e.0), *k, cur);
                    let on = On::new();
                    drop(e);
                    drop(on);
                    Res::Rejected(cur)
                }
            }
        }
        Op::TryInsertWith(k) => {
            key = Some(*k);
            let k = *k;
            let kk = Key::new(k);
            let f = || { point(); boom(k, None); let v = Val::new(k); log(k, None, Out::Insert(v.id as u32)); point(); v };
            let r = call!(a.try_insert_with(kk, f));
            match r {
                Ok(v) => { let i = rd(v); c.hold(None, Some(v), k, i); Res::Inserted(i) }
                Err(v) => { let i = rd(v); c.hold(None, Some(v), k, i); Res::Rejected(i) }
            }
        }
        Op::GetOrInsert(k) => {
            key = Some(*k);
            let v = Val::new(*k);
            new = Some(v.id as u32);
            let kk = Key::new(*k);
            let r = call!(a.get_or_insert(kk, v));
            let i = rd(r);
            c.hold(None, Some(r), *k, i);
            if Some(i) == new { Res::Inserted(i) } else { Res::Rejected(i) }
        }
        Op::GetOrInsertWith(k) => {
            key = Some(*k);
            let k = *k;
            let kk = Key::new(k);
            let f = || { point(); boom(k, None); let v = Val::new(k); log(k, None, Out::Insert(v.id as u32)); point(); v };
            let r = call!(a.get_or_insert_with(kk, f));
            let i = rd(r);
            c.hold(None, Some(r), k, i);
            let mine = calls.borrow().iter().any(|c| c.out == Out::Insert(i));
            if mine { Res::Inserted(i) } else { Res::Rejected(i) }
        }
        Op::Update(k) => {
            key = Some(*k);
            let k = *k;
            let kk = Key::new(k);
            let f = |old: &Val| { let o = old.read(); point(); boom(k, Some(o)); let v = Val::new(k); log(k, Some(o), Out::Insert(v.id as u32)); point(); v };
            let r = call!(a.update(kk, f));
            match r {
                Some(v) => {
                    let i = rd(v);
                    c.hold(None, Some(v), k, i);
                    match calls.borrow().iter().find(|c| c.out == Out::Insert(i)) {
                        Some(cl) => Res::Updated(cl.input.unwrap(), i),
                        None => fail("closure", &format!("update({k}) returned value #{i}, which its closure never produced")),
                    }
                }
                None => Res::Val(None),
            }
        }
        Op::UpdateOrInsert(k) | Op::UpdateOrInsertWith(k) => {
            key = Some(*k);
            let k = *k;
            let kk = Key::new(k);
            let f = |old: &Val| { let o = old.read(); point(); boom(k, Some(o)); let v = Val::new(k); log(k, Some(o), Out::Insert(v.id as u32)); point(); v };
            let r = if matches!(op, Op::UpdateOrInsert(_)) {
                let v = Val::new(k);
                new = Some(v.id as u32);
                call!(a.update_or_insert(kk, f, v))
            } else {
                let d = || { point(); boom(k, None); let v = Val::new(k); log(k, None, Out::Insert(v.id as u32)); point(); v };
                call!(a.update_or_insert_with(kk, f, d))
            };
            let i = rd(r);
            c.hold(None, Some(r), k, i);
            let cl = calls.borrow().iter().find(|c| c.out == Out::Insert(i)).cloned();
            match cl {
                Some(Call { input: Some(o), .. }) => Res::Updated(o, i),
                Some(Call { input: None, .. }) => Res::Inserted(i),
                None if Some(i) == new => Res::Inserted(i),
                None => fail("closure", &format!("update_or_insert({k}) returned value #{i}, which its closures never produced")),
            }
        }
        Op::Compute(k, on_none, on_some) => {
            key = Some(*k);
            let (k, on_none, on_some) = (*k, *on_none, *on_some);
            let kk = Key::new(k);
            let f = |cur: Option<(&'static Key, &'static Val)>| -> Operation<Val, usize> {
                point();
                let input = cur.map(|(kk, v)| {
                    let kr = kk.read();
                    if kr != k { fail("closure", &format!("compute({k}) was shown key {kr}")) }
                    v.read()
                });
                boom(k, input);
                let act = match input { None => on_none, Some(id) => match on_some { Act::Parity => if id % 2 == 0 { Act::Insert } else { Act::Remove }, a => a } };
                let n = calls.borrow().len();
                let r = match act {
                    Act::Insert => { let v = Val::new(k); log(k, input, Out::Insert(v.id as u32)); Operation::Insert(v) }
                    Act::Remove if input.is_some() => { log(k, input, Out::Remove); Operation::Remove }
                    Act::Misuse if input.is_none() => { log(k, input, Out::Misuse); Operation::Remove }
                    _ => { log(k, input, Out::Abort); Operation::Abort(n) }
                };
                point();
                r
            };
            let r = call!(a.compute(kk, f));
            let find = |out: Out| calls.borrow().iter().find(|c| c.out == out).cloned();
            match r {
                Compute::Inserted(kk, v) => {
                    let i = rd(v);
                    let _ = { let _on = On::new(); kk.read() };
                    c.hold(Some(kk), Some(v), k, i);
                    match find(Out::Insert(i)) {
                        Some(Call { input: None, .. }) => Res::Inserted(i),
                        x => fail("closure", &format!("compute({k}) reports Inserted(#{i}) but the closure call producing it was {x:?}")),
                    }
                }
                Compute::Updated { old: (ok, ov), new: (nk, nv) } => {
                    let (o, i) = (rd(ov), rd(nv));
                    let _ = { let _on = On::new(); (ok.read(), nk.read()) };
                    c.hold(Some(ok), Some(ov), k, o);
                    c.hold(Some(nk), Some(nv), k, i);
                    match find(Out::Insert(i)) {
                        Some(Call { input: Some(x), .. }) if x == o => Res::Updated(o, i),
                        x => fail("closure", &format!("compute({k}) reports Updated(#{o} -> #{i}) but the closure call producing #{i} was {x:?}")),
                    }
                }
                Compute::Removed(kk, v) => {
                    let o = rd(v);
                    let _ = { let _on = On::new(); kk.read() };
                    c.hold(Some(kk), Some(v), k, o);
                    if !calls.borrow().iter().any(|c| c.out == Out::Remove && c.input == Some(o)) {
                        fail("closure", &format!("compute({k}) reports Removed(#{o}) but the closure never decided to remove it"));
                    }
                    Res::Removed(o)
                }
                Compute::Aborted(n) => {
                    if calls.borrow().get(n).is_none_or(|c| c.out != Out::Abort) {
                        fail("closure", &format!("compute({k}) reports the abort value {n}, which no closure call returned"));
                    }
                    Res::Aborted(n)
                }
            }
        }
        Op::Remove(k) => {
            key = Some(*k);
            let r = call!(a.remove(&Q(*k)));
            match r {
                Some(v) => { let i = rd(v); c.hold(None, Some(v), *k, i); Res::Removed(i) }
                None => Res::Val(None),
            }
        }
        Op::RemoveEntry(k) => {
            key = Some(*k);
            let r = call!(a.remove_entry(&Q(*k)));
            match r {
                Some((kk, v)) => {
                    let i = rd(v);
                    let kr = { let _on = On::new(); kk.read() };
                    if kr != *k { fail("linearizability", &format!("remove_entry({k}) returned key {kr}")) }
                    c.hold(Some(kk), Some(v), *k, i);
                    Res::Removed(i)
                }
                None => Res::Val(None),
            }
        }
        Op::RemoveIf(k, p) => {
            key = Some(*k);
            let k = *k;
            let f = |kk: &Key, v: &Val| {
                let (kr, id) = (kk.read(), v.read());
                point();
                if kr != k { fail("closure", &format!("remove_if({k}) was shown key {kr}")) }
                boom(k, Some(id));
                let r = pred(*p, k, id);
                log(k, Some(id), Out::Keep(!r));
                point();
                r
            };
            let r = call!(a.remove_if(&Q(k), f));
            match r {
                Ok(None) => Res::Val(None),
                Ok(Some((kk, v))) => {
                    let i = rd(v);
                    c.hold(Some(kk), Some(v), k, i);
                    if !pred(*p, k, i) { fail("closure", &format!("remove_if({k}) removed #{i}, which its predicate rejects")) }
                    Res::Removed(i)
                }
                Err((kk, v)) => {
                    let i = rd(v);
                    c.hold(Some(kk), Some(v), k, i);
                    if pred(*p, k, i) { fail("closure", &format!("remove_if({k}) kept #{i}, which its predicate accepts")) }
                    Res::Rejected(i)
                }
            }
        }
        Op::Clear => { call!(a.clear()); Res::Unit }
        Op::Retain(p) => {
            let f = |kk: &Key, v: &Val| {
                let (k, id) = (kk.read(), v.read());
                point();
                boom(k, Some(id));
                let r = pred(*p, k, id);
                log(k, Some(id), Out::Keep(r));
                point();
                r
            };
            call!(unsafe { &mut *ap }.retain(f));
            Res::Unit
        }
        Op::Iter(_) | Op::IterAround(..) => {
            let flavour = if let Op::Iter(f) = op { *f } else { 0 };
            let take = if let Op::IterAround(n, _) = op { *n as usize } else { usize::MAX };
            macro_rules! drive {
                ($it:expr, $f:expr) => {{
                    let on = On::new();
                    let mut it = $it;
                    drop(on);
                    let mut n = 0;
                    loop {
                        if n == take {
                            if let Op::IterAround(_, inner) = op {
                                exec(ap, inner, c);
                            }
                        }
                        let on = On::new();
                        let x = it.next();
                        drop(on);
                        let Some(x) = x else { break };
                        n += 1;
                        let (k, id) = $f(x);
                        yields.push((tick(), k, id));
                        if n > 10000 { fail("iteration", "an iterator yielded more than 10000 items") }
                    }
                    ret = tick();
                    let on = On::new();
                    if it.next().is_some() { drop(on); fail("iteration", "an exhausted iterator yielded another item") }
                    drop(it);
                }};
            }
            match flavour {
                1 => drive!(a.keys(), |kk: &'static Key| {
                    let k = { let _on = On::new(); kk.read() };
                    c.hold(Some(kk), None, k, 0);
                    (Some(k), u32::MAX)
                }),
                2 => drive!(a.values(), |v: &'static Val| {
                    let id = rd(v);
                    c.hold(None, Some(v), 0, id);
                    (Some(reg().val_key[id as usize]), id)
                }),
                3 => drive!(a.into_iter_ref(), |(kk, v): (&'static Key, &'static Val)| {
                    let id = rd(v);
                    let k = { let _on = On::new(); kk.read() };
                    c.hold(Some(kk), Some(v), k, id);
                    (Some(k), id)
                }),
                _ => drive!(a.iter(), |(kk, v): (&'static Key, &'static Val)| {
                    let id = rd(v);
                    let k = { let _on = On::new(); kk.read() };
                    c.hold(Some(kk), Some(v), k, id);
                    (Some(k), id)
                }),
            }
            Res::Unit
        }
        Op::CloneMap => {
            CLONES.with(|c| c.borrow_mut().clear());
            let on = On::new();
            let m2 = map.clone();
            drop(on);
            ret = tick();
            let cl = CLONES.with(|c| std::mem::take(&mut *c.borrow_mut()));
            // what the clone contains must be what was cloned (later duplicates win)
            let on = On::new();
            let mut got: Vec<(u32, u32)> = vec![];
            {
                let g2 = m2.guard();
                for (k, v) in m2.iter(&g2) {
                    let x = (k.read(), v.read());
                    let _o = Off::new();
                    got.push(x);
                }
            }
            let n = m2.len();
            drop(on);
            // equality with the original implies that every entry of the clone was current during the comparison
            let t1 = tick();
            let on = On::new();
            let equal = c.idx % 2 == 0 && m2 == *map;
            drop(on);
            let t2 = tick();
            if equal {
                for (_, id) in &got {
                    if let Some((old, _)) = cl.iter().find(|x| x.1 == *id) {
                        sh().hist.push(Rec { tid: c.tid, idx: c.idx, op: Op::Get(reg().val_key[*old as usize]), inv: t1, ret: t2, key: Some(reg().val_key[*old as usize]), new: None, res: Res::Val(Some(*old)), calls: vec![], yields: vec![] });
                    }
                }
            }
            let on = On::new();
            drop(m2);
            drop(on);
            let mut want: std::collections::BTreeMap<u32, u32> = Default::default();
            for (old, newid) in &cl {
                want.insert(reg().val_key[*old as usize], *newid);
                yields.push((ret, Some(reg().val_key[*old as usize]), *old));
            }
            got.sort();
            if got != want.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>() || n != got.len() {
                fail("iteration", &format!("a clone contains {got:?} (len {n}) but {want:?} was cloned into it"));
            }
            Res::Unit
        }
        Op::Extend(ks) => {
            let mut m = map;
            call!(Extend::extend(&mut m, Items { ks, i: 0, make: |k| { let (kk, v) = (Key::new(k), Val::new(k)); log(k, None, Out::Insert(v.id as u32)); (kk, v) } }));
            Res::Unit
        }
        Op::Debug => {
            debug_log(true);
            let x = call!(a.debug(c.idx % 2 == 0));
            yields = debug_log(false).into_iter().map(|(t, id)| (t, Some(obj_key(id)), id)).collect();
            let on = On::new();
            drop(x);
            drop(on);
            Res::Unit
        }
        Op::Len => Res::Num(call!(a.len())),
        Op::IsEmpty => Res::Bool(call!(a.is_empty())),
        Op::Reserve(n) => { call!(a.reserve(*n as usize)); Res::Unit }
        Op::Flush => { call!(a.flush()); Res::Unit }
        Op::Nested(inner) => {
            let on = On::new();
            let g2 = map.guard();
            drop(on);
            let keep = c.keep;
            c.keep = false;
            exec(&mut Gd { m: map, g: unsafe { &*(&g2 as *const LocalGuard<'static>) } }, inner, c);
            c.keep = keep;
            let on = On::new();
            drop(g2);
            drop(on);
            return;
        }
        Op::Panic(site, n, inner) => {
            c.inject = Some((*site, *n));
            exec(ap, inner, c);
            c.inject = None;
            return;
        }
        Op::Unpark(t) => {
            let th = sh().threads.get(*t as usize).cloned();
            if let Some(th) = th { call!(th.unpark()); } else { ret = tick(); }
            Res::Unit
        }
        Op::CheckHeld => { check_held(c.held); ret = tick(); Res::Unit }
        Op::Release | Op::Refresh | Op::Give | Op::Take => unreachable!(),
    };
    if stored_nothing(op, &res) {
        reg().unused.push((c.tid, opno));
    }
    let rec = Rec { tid: c.tid, idx: c.idx, op: op.clone(), inv, ret, key, new, res, calls: calls.into_inner(), yields };
    sh().hist.push(rec);
}

fn exec_set<A: SetApi<Key, Bh> + 'static>(ap: *mut A, op: &Op, c: &mut Ctx) {
    reg().op[c.tid as usize & 7] += 1;
    let opno = reg().op[c.tid as usize & 7];
    let a: &'static A = unsafe { &*ap };
    let set: &'static Set = unsafe { &*sh().set };
    let calls: RefCell<Vec<Call>> = RefCell::new(vec![]);
    let mut yields: Vec<(u64, Option<u32>, u32)> = vec![];
    let mut new = None;
    let mut key = None;
    let log = |k: u32, input: Option<u32>, out: Out| {
        let _o = Off::new();
        let t = tick();
        calls.borrow_mut().push(Call { t, key: k, input, out });
    };
    let inv = tick();
    let mut ret = 0;
    macro_rules! call {
        ($e:expr) => {{
            arm(c.inject.take());
            let on = On::new();
            let r = catch_unwind(AssertUnwindSafe(|| $e));
            drop(on);
            let fired = fired();
            arm(None);
            ret = tick();
            match r {
                Ok(r) => {
                    if fired { fail("panic-safety", &format!("{op:?} returned although user code it called panicked")) }
                    r
                }
                Err(p) => {
                    if !fired || !p.is::<Injected>() { fail("panic", &format!("{op:?} on a set panicked although no user code did")) }
                    { let _on = On::new(); drop(p); }
                    let by = (c.tid, reg().op[c.tid as usize & 7]);
                    reg().panicked.push(by);
                    let calls = calls.borrow().clone();
                    sh().hist.push(Rec { tid: c.tid, idx: c.idx, op: op.clone(), inv, ret, key: key.or(okey(op)), new, res: Res::Panicked, calls, yields });
                    return;
                }
            }
        }};
    }
    let rk = |k: &Key| -> (u32, u32) { let _on = On::new(); (k.read(), k.inst) };
    let res = match op {
        Op::Get(k) => {
            key = Some(*k);
            match call!(a.get(&Q(*k))) {
                Some(kk) => {
                    let (kr, id) = rk(kk);
                    if kr != *k { fail("linearizability", &format!("get({k}) on a set returned key {kr}")) }
                    c.hold(Some(kk), None, *k, id);
                    Res::Val(Some(id))
                }
                None => Res::Val(None),
            }
        }
        Op::Contains(k) => {
            key = Some(*k);
            Res::Bool(call!(a.contains(&Q(*k))))
        }
        Op::Insert(k) => {
            key = Some(*k);
            let kk = Key::new(*k);
            new = Some(kk.inst);
            if call!(a.insert(kk)) { Res::Inserted(new.unwrap()) } else { Res::Bool(true) }
        }
        Op::Remove(k) => {
            key = Some(*k);
            if call!(a.remove(&Q(*k))) { Res::Taken } else { Res::Val(None) }
        }
        Op::Clear => { call!(a.clear()); Res::Unit }
        Op::Retain(p) => {
            let mut f = |kk: &Key| {
                let (k, id) = (kk.read(), kk.inst);
                unsafe { rt_point() }
                if about_to_fire(Site::Closure) { log(k, Some(id), Out::Abort) }
                inject(Site::Closure);
                let r = pred(*p, k, id);
                log(k, Some(id), Out::Keep(r));
                unsafe { rt_point() }
                r
            };
            call!(unsafe { &mut *ap }.retain(&mut f));
            Res::Unit
        }
        Op::Iter(_) | Op::IterAround(..) => {
            let flavour = if let Op::Iter(f) = op { *f } else { 0 };
            let take = if let Op::IterAround(n, _) = op { *n as usize } else { usize::MAX };
            let mut n = 0;
            let around = |n: usize, c: &mut Ctx| if n == take { if let Op::IterAround(_, inner) = op { exec_set(ap, inner, c) } };
            {
                let _on = On::new();
                a.each(flavour, &mut |kk| {
                    // Safety: as for `a`
                    let kk: &'static Key = unsafe { &*(kk as *const Key) };
                    let _o = Off::new();
                    let (k, id) = rk(kk);
                    c.hold(Some(kk), None, k, id);
                    yields.push((tick(), Some(k), id));
                    if n > 10000 { fail("iteration", "an iterator yielded more than 10000 items") }
                    n += 1;
                    around(n, c);
                });
            }
            ret = tick();
            Res::Unit
        }
        Op::CloneMap => {
            CLONES.with(|c| c.borrow_mut().clear());
            let on = On::new();
            let m2 = set.clone();
            drop(on);
            ret = tick();
            let cl = CLONES.with(|c| std::mem::take(&mut *c.borrow_mut()));
            let on = On::new();
            let mut got: Vec<(u32, u32)> = vec![];
            {
                let g2 = m2.guard();
                for k in m2.iter(&g2) {
                    let x = (k.read(), k.inst);
                    let _o = Off::new();
                    got.push(x);
                }
            }
            let n = m2.len();
            drop(on);
            let t1 = tick();
            let on = On::new();
            let equal = c.idx % 2 == 0 && m2 == *set;
            drop(on);
            let t2 = tick();
            let mut want: std::collections::BTreeMap<u32, u32> = Default::default();
            for (old, newid) in &cl {
                want.entry(obj_key(*old)).or_insert(*newid);
                yields.push((ret, Some(obj_key(*old)), *old));
            }
            got.sort();
            if got != want.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>() || n != got.len() {
                fail("iteration", &format!("a cloned set contains {got:?} (len {n}) but {want:?} was cloned into it"));
            }
            if equal {
                for (k, _) in &got {
                    sh().hist.push(Rec { tid: c.tid, idx: c.idx, op: Op::Contains(*k), inv: t1, ret: t2, key: Some(*k), new: None, res: Res::Bool(true), calls: vec![], yields: vec![] });
                }
            }
            let on = On::new();
            drop(m2);
            drop(on);
            Res::Unit
        }
        Op::Extend(ks) => {
            let mut m = set;
            call!(Extend::extend(&mut m, Items { ks, i: 0, make: |k| { let kk = Key::new(k); log(k, None, Out::Insert(kk.inst)); kk } }));
            Res::Unit
        }
        Op::Debug => {
            debug_log(true);
            let x = call!(a.debug(c.idx % 2 == 0));
            yields = debug_log(false).into_iter().map(|(t, id)| (t, Some(obj_key(id)), id)).collect();
            let on = On::new();
            drop(x);
            drop(on);
            Res::Unit
        }
        Op::Len => Res::Num(call!(a.len())),
        Op::IsEmpty => Res::Bool(call!(a.is_empty())),
        Op::Reserve(n) => { call!(a.reserve(*n as usize)); Res::Unit }
        Op::Flush => { call!(a.flush()); Res::Unit }
        Op::Nested(inner) => {
            let on = On::new();
            let g2 = set.guard();
            drop(on);
            let keep = c.keep;
            c.keep = false;
            exec_set(&mut SGd { m: set, g: unsafe { &*(&g2 as *const LocalGuard<'static>) } }, inner, c);
            c.keep = keep;
            let on = On::new();
            drop(g2);
            drop(on);
            return;
        }
        Op::Panic(site, n, inner) => {
            c.inject = Some((*site, *n));
            exec_set(ap, inner, c);
            c.inject = None;
            return;
        }
        Op::Unpark(t) => {
            let th = sh().threads.get(*t as usize).cloned();
            if let Some(th) = th { call!(th.unpark()); } else { ret = tick(); }
            Res::Unit
        }
        Op::CheckHeld => { check_held(c.held); ret = tick(); Res::Unit }
        x => unreachable!("{x:?} on a set"),
    };
    if stored_nothing(op, &res) {
        reg().unused.push((c.tid, opno));
    }
    let rec = Rec { tid: c.tid, idx: c.idx, op: op.clone(), inv, ret, key, new, res, calls: calls.into_inner(), yields };
    sh().hist.push(rec);
}

#[allow(clippy::large_enum_variant)]
enum G {
    L(LocalGuard<'static>),
    O(OwnedGuard<'static>),
    P(HashMapRef<'static, Key, Val, Bh, LocalGuard<'static>>),
    Q(HashMapRef<'static, Key, Val, Bh, OwnedGuard<'static>>),
    Sp(HashSetRef<'static, Key, Bh, LocalGuard<'static>>),
    Sq(HashSetRef<'static, Key, Bh, OwnedGuard<'static>>),
}
fn mk(kind: GuardKind) -> G {
    let s = sh();
    let _on = On::new();
    if s.map.is_null() {
        let set: &'static Set = unsafe { &*s.set };
        return match kind {
            GuardKind::Owned => G::O(set.owned_guard()),
            GuardKind::Pin | GuardKind::PinHeld => G::Sp(set.pin()),
            GuardKind::PinOwned => G::Sq(set.pin_owned()),
            _ => G::L(set.guard()),
        };
    }
    let map: &'static Map = unsafe { &*s.map };
    match kind {
        GuardKind::Owned => G::O(map.owned_guard()),
        GuardKind::Pin | GuardKind::PinHeld => G::P(map.pin()),
        GuardKind::PinOwned => G::Q(map.pin_owned()),
        _ => G::L(map.guard()),
    }
}
fn owned_exec(g: *const OwnedGuard<'static>, op: &Op, c: &mut Ctx) {
    let g = unsafe { &*g };
    let s = sh();
    if s.map.is_null() { exec_set(&mut SGd { m: unsafe { &*s.set }, g }, op, c) } else { exec(&mut Gd { m: unsafe { &*s.map }, g }, op, c) }
}
fn guarded(g: &mut G, op: &Op, c: &mut Ctx) {
    let s = sh();
    match g {
        G::L(g) => {
            let g: &'static LocalGuard<'static> = unsafe { &*(g as *const _) };
            if s.map.is_null() { exec_set(&mut SGd { m: unsafe { &*s.set }, g }, op, c) } else { exec(&mut Gd { m: unsafe { &*s.map }, g }, op, c) }
        }
        G::O(g) => owned_exec(g, op, c),
        G::P(p) => exec(p, op, c),
        G::Q(p) => exec(p, op, c),
        G::Sp(p) => exec_set(p, op, c),
        G::Sq(p) => exec_set(p, op, c),
    }
}

pub fn run_program(tid: u32, th: &Thread) {
    let mut guard: Option<G> = None;
    let mut held: Vec<Held> = vec![];
    for (i, op) in th.ops.iter().enumerate() {
        match op {
            Op::Release => {
                check_held(&held);
                held.clear();
                let _on = On::new();
                guard = None;
                continue;
            }
            Op::Refresh => {
                check_held(&held);
                held.clear();
                let _on = On::new();
                match &mut guard {
                    Some(G::L(g)) => g.refresh(),
                    Some(G::O(g)) => g.refresh(),
                    // the guard inside a pin cannot be refreshed
                    _ => guard = None,
                }
                continue;
            }
            Op::Give => {
                if sh().slot.is_none() && matches!(guard, Some(G::O(_) | G::Q(_) | G::Sq(_))) {
                    sh().slot = Some(Slot { g: guard.take().unwrap(), held: std::mem::take(&mut held) });
                    sh().given += 1;
                    let _on = On::new();
                    SLOT_SYNC.fetch_add(1, Ordering::AcqRel);
                }
                continue;
            }
            Op::Take => {
                if let Some(s) = sh().slot.take() {
                    {
                        let _on = On::new();
                        SLOT_SYNC.fetch_add(1, Ordering::AcqRel);
                    }
                    check_held(&held);
                    held.clear();
                    {
                        let _on = On::new();
                        guard = None;
                    }
                    guard = Some(s.g);
                    held = s.held;
                }
                continue;
            }
            _ => {}
        }
        if guard.is_none() && th.guard == GuardKind::Shared {
            let mut c = Ctx { tid, idx: i as u32, held: &mut held, keep: true, inject: None };
            owned_exec(sh().shared.as_ref().unwrap(), op, &mut c);
            continue;
        }
        if guard.is_none() {
            guard = Some(mk(th.guard));
        }
        let mut c = Ctx { tid, idx: i as u32, held: &mut held, keep: true, inject: None };
        guarded(guard.as_mut().unwrap(), op, &mut c);
        if matches!(th.guard, GuardKind::PerOp | GuardKind::Pin) {
            check_held(&held);
            held.clear();
            let _on = On::new();
            guard = None;
        }
    }
    check_held(&held);
    held.clear();
    let _on = On::new();
    drop(guard);
}

pub fn build_map(c: &MapCfg) -> &'static Map {
    let _on = On::new();
    let m = HashMap::builder()
        .hasher(Bh(c.hasher))
        .capacity(c.capacity)
        .resize_mode(if c.blocking { ResizeMode::Blocking } else { ResizeMode::Incremental(c.chunk) })
        .collector(seize::Collector::new().batch_size(c.batch))
        .build();
    Box::leak(Box::new(m))
}
pub fn build_set(c: &MapCfg) -> &'static Set {
    let _on = On::new();
    let m = HashSet::builder()
        .hasher(Bh(c.hasher))
        .capacity(c.capacity)
        .resize_mode(if c.blocking { ResizeMode::Blocking } else { ResizeMode::Incremental(c.chunk) })
        .collector(seize::Collector::new().batch_size(c.batch))
        .build();
    Box::leak(Box::new(m))
}


pub struct RunInfo {
    pub zeroed: u64,
    pub steps: u64,
    pub audit: usize,
    pub verdict: crate::oracle::Verdict,
}

extern "C" {
    fn rt_sequential();
    fn rt_live_zeroed() -> u64;
}

fn flush_prog() -> Thread {
    Thread { guard: GuardKind::PerOp, ops: vec![Op::Flush, Op::Flush] }
}

/// A case of C18 in which user code panicked: whatever goes wrong in it concerns panic safety.
fn panicked() -> bool {
    !reg().panicked.is_empty() && unsafe { &*(&raw const crate::PROP) } == "C18"
}

/// Runs the case on the calling thread (T0). Worker threads must have been started.
pub fn run_case(case: &Case) -> RunInfo {
    let s = sh();
    reg_reset();
    s.hist.clear();
    s.time = 0;
    s.slot = None;
    s.shared = None;
    s.case = case;
    s.given = 0;
    s.progs = case.threads.clone();
    unsafe {
        rt_case_begin(&case.rt, case.switches.as_ptr(), case.switches.len() as u32);
    }
    reg().set_mode = case.set;
    s.map = std::ptr::null();
    s.set = std::ptr::null();
    if case.set {
        s.set = build_set(&case.map);
    } else {
        s.map = build_map(&case.map);
    }
    // zeroed blocks a map owns besides its table
    let z_base = unsafe { rt_live_zeroed() }.saturating_sub((case.map.capacity > 0) as u64);
    run_program(0, &Thread { guard: GuardKind::PerOp, ops: case.prelude.clone() });
    if case.threads.iter().any(|t| t.guard == GuardKind::Shared) {
        let _on = On::new();
        s.shared = Some(if case.set { unsafe { &*s.set }.owned_guard() } else { unsafe { &*s.map }.owned_guard() });
    }
    let z0 = unsafe { ZEROED };
    let st0 = unsafe { rt_step() };
    unsafe { rt_run_threads(case.threads.len() as u32) };
    let zeroed = unsafe { ZEROED } - z0;
    let steps = unsafe { rt_step() } - st0;
    if let Some(sl) = s.slot.take() {
        check_held(&sl.held);
        let _on = On::new();
        drop(sl.g);
    }
    if let Some(g) = s.shared.take() {
        let _on = On::new();
        drop(g);
    }
    let audit = s.hist.len();
    if !case.drop_early {
        let mut ops: Vec<Op> = (0..case.keys).map(Op::Get).collect();
        ops.push(Op::Len);
        ops.push(Op::IsEmpty);
        ops.push(Op::Iter(0));
        ops.push(Op::Len);
        run_program(0, &Thread { guard: GuardKind::PerOp, ops });
    }
    let verdict = match crate::oracle::check(&s.hist, case, audit) {
        Ok(v) => v,
        Err(bad) => {
            let (kind, msg) = if panicked() { &bad[0] } else { bad.iter().find(|v| crate::driver::owns(unsafe { &*(&raw const crate::PROP) }, v.0)).unwrap_or(&bad[0]) };
            fail(if panicked() { "panic-safety" } else { kind }, msg)
        }
    };
    if unsafe { &*(&raw const crate::PROP) } == "C22" {
        for (i, seen) in reg().key_seen.iter().enumerate() {
            if *seen && reg().unused.contains(&reg().key_by[i]) {
                fail("key-identity", &format!("key object #{i} of key {} was in the map although the operation it was handed to left the stored key in place", reg().key_k[i]));
            }
        }
    }
    if case.flush_check && !case.drop_early {
        // With no guard held, a flush of every thread's batch must release everything removed so far.
        run_program(0, &flush_prog());
        for _ in 0..2 {
            s.progs = vec![flush_prog(); case.threads.len()];
            unsafe {
                rt_sequential();
                rt_run_threads(case.threads.len() as u32)
            };
            run_program(0, &flush_prog());
        }
        let drops = if case.set { &reg().key_drops } else { &reg().val_drops };
        let by = if case.set { &reg().key_by } else { &reg().val_by };
        let mut present = vec![false; drops.len()];
        for r in &s.hist[audit..] {
            if let Res::Val(Some(id)) = r.res {
                present[id as usize] = true;
            }
        }
        for (i, d) in drops.iter().enumerate() {
            if !present[i] && *d == 0 && !reg().panicked.contains(&by[i]) {
                fail("garbage", &format!("{} #{i} (key {}) is no longer in the map and no guard is held, but flushing every thread did not release it", if case.set { "key object" } else { "value" }, obj_key(i as u32)));
            }
        }
        let (alive, kept) = (reg().key_drops.iter().filter(|d| **d == 0).count(), present.iter().filter(|p| **p).count());
        if reg().panicked.is_empty() && alive != kept {
            fail("garbage", &format!("{alive} key objects are alive after every thread has flushed, but the map has {kept} entries"));
        }
        let n = unsafe { rt_live_zeroed() };
        if n > z_base + 1 {
            let n = n - z_base;
            fail("garbage", &format!("{n} tables are still allocated although no resize is in progress and every thread has flushed"));
        }
    }
    {
        let _on = On::new();
        if case.set { drop(unsafe { Box::from_raw(s.set as *mut Set) }) } else { drop(unsafe { Box::from_raw(s.map as *mut Map) }) }
    }
    // everything must be gone
    let leak = if panicked() { "panic-safety" } else { "leak" };
    let excused = |by: &(u32, u32), d: u8| d == 0 && reg().panicked.contains(by);
    for (i, d) in reg().val_drops.iter().enumerate() {
        if *d != 1 && !excused(&reg().val_by[i], *d) {
            fail(leak, &format!("value #{i} (key {}) was dropped {d} times by the time the map was dropped", reg().val_key[i]));
        }
    }
    for (i, d) in reg().key_drops.iter().enumerate() {
        if *d != 1 && !excused(&reg().key_by[i], *d) {
            fail(leak, &format!("key object #{i} was dropped {d} times by the time the map was dropped"));
        }
    }
    if reg().panicked.is_empty() && unsafe { rt_live_count() } != 0 {
        let mut b = vec![0i8; 600];
        let n = unsafe { rt_describe_leak(b.as_mut_ptr(), 600) };
        let t = unsafe { std::ffi::CStr::from_ptr(b.as_ptr()) }.to_string_lossy().to_string();
        fail(leak, &format!("{n} allocations were never freed after the map was dropped: {t}"));
    }
    if unsafe { rt_live_zeroed() } != 0 {
        fail(leak, "a table was never freed after the map was dropped");
    }
    unsafe { rt_case_end() };
    RunInfo { zeroed, steps, audit, verdict }
}

/// Body of a logical thread.
pub fn worker(tid: u32) {
    unsafe { rt_worker_register(tid as i32) };
    warm();
    loop {
        unsafe { rt_worker_wait(tid as i32) };
        // consume a wake-up token left over from an earlier case
        std::thread::park_timeout(std::time::Duration::ZERO);
        let s = sh();
        let p = s.progs[tid as usize - 1].clone();
        run_program(tid, &p);
        unsafe { rt_worker_done(tid as i32) };
    }
}

/// Initialises thread-local and global state of std and seize outside of any case.
pub fn warm() {
    let m: HashMap<u32, u32> = HashMap::new();
    {
        let g = m.guard();
        m.insert(1, 1, &g);
    }
    let _ = std::thread::current();
    CLONES.with(|c| c.borrow_mut().reserve(64));
    let v: Vec<_> = (0..64).map(|_| m.owned_guard()).collect();
    drop(v);
}
