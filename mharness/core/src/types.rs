//! Tracked key and value types, hashers, and the drop registry.
use crate::ffi::{fail, Off};
use papaya::Equivalent;
use std::hash::{BuildHasher, Hash, Hasher};

pub const CANARY: u64 = 0x5EED_CAFE_F00D_D00D;

#[derive(Default)]
pub struct Registry {
    pub val_drops: Vec<u8>,
    pub key_drops: Vec<u8>,
    /// value id -> logical key it was created for
    pub val_key: Vec<u32>,
    /// value id -> equality class (clones are equal to their original)
    pub val_class: Vec<u32>,
    /// the operation (thread, number) that created the object
    pub val_by: Vec<(u32, u32)>,
    pub key_by: Vec<(u32, u32)>,
    /// operation in progress per thread
    pub op: [u32; 8],
    /// operations that panicked; what they created may never be dropped
    pub panicked: Vec<(u32, u32)>,
    /// key object -> logical key
    pub key_k: Vec<u32>,
    /// a set is under test: its key objects take the part of values
    pub set_mode: bool,
    /// key objects that were seen in the map
    pub key_seen: Vec<bool>,
    /// operations that stored nothing
    pub unused: Vec<(u32, u32)>,
}
impl Registry {
    fn by(&self) -> (u32, u32) {
        let t = unsafe { crate::ffi::rt_tid() }.max(0) as u32;
        (t, self.op[t as usize & 7])
    }
}
static mut REG: Option<Registry> = None;
#[allow(static_mut_refs)]
pub fn reg() -> &'static mut Registry {
    unsafe { REG.get_or_insert_with(Registry::default) }
}
pub fn reg_reset() {
    let r = reg();
    r.val_drops.clear();
    r.key_drops.clear();
    r.val_key.clear();
    r.val_class.clear();
    r.val_by.clear();
    r.key_by.clear();
    r.op = [0; 8];
    r.panicked.clear();
    r.key_k.clear();
    r.set_mode = false;
    r.key_seen.clear();
    r.unused.clear();
}
/// The key an object (a value, or in a set a key object) was created for.
pub fn obj_key(id: u32) -> u32 {
    let r = reg();
    if r.set_mode { r.key_k[id as usize] } else { r.val_key[id as usize] }
}
thread_local! {
    static DEBUGGED: std::cell::RefCell<Option<Vec<(u64, u32)>>> = const { std::cell::RefCell::new(None) };
}
/// Starts or ends noting the objects that are printed.
pub fn debug_log(start: bool) -> Vec<(u64, u32)> {
    let _o = Off::new();
    DEBUGGED.replace(if start { Some(vec![]) } else { None }).unwrap_or_default()
}
fn debugged(id: u32) {
    let _o = Off::new();
    DEBUGGED.with(|d| {
        if let Some(v) = &mut *d.borrow_mut() {
            v.push((crate::exec::tick(), id))
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Site {
    Hash,
    Eq,
    Closure,
    Item,
    Clone,
}
/// Marker payload of an injected panic.
pub struct Injected;
thread_local! {
    /// armed fault: the site and how many calls from now it fires
    static INJ: std::cell::Cell<Option<(Site, u32)>> = const { std::cell::Cell::new(None) };
    static INJ_FIRED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// the operation in progress may panic by itself, as documented
    static MAY_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn arm(x: Option<(Site, u32)>) {
    INJ.set(x);
    INJ_FIRED.set(false);
}
/// disarms without forgetting whether the fault fired
pub fn arm_pause() {
    INJ.set(None)
}
pub fn fired() -> bool {
    INJ_FIRED.get()
}
pub fn may_panic(v: bool) {
    MAY_PANIC.set(v)
}
pub fn is_may_panic() -> bool {
    MAY_PANIC.get()
}
/// whether the next call at this site panics
pub fn about_to_fire(site: Site) -> bool {
    matches!(INJ.get(), Some((s, n)) if s == site && n <= 1)
}
#[inline]
pub fn inject(site: Site) {
    if let Some((s, n)) = INJ.get() {
        if s == site {
            if n <= 1 {
                INJ.set(None);
                INJ_FIRED.set(true);
                std::panic::panic_any(Injected);
            }
            INJ.set(Some((s, n - 1)));
        }
    }
}

#[repr(C)]
pub struct Val {
    pub id: u64,
    pub chk: u64,
}
impl Val {
    pub fn new(k: u32) -> Val {
        let _o = Off::new();
        let r = reg();
        let id = r.val_drops.len() as u64;
        r.val_drops.push(0);
        r.val_key.push(k);
        r.val_class.push(id as u32);
        let by = r.by();
        r.val_by.push(by);
        Val { id, chk: id ^ CANARY }
    }
    /// Reads the value through instrumented accesses and validates it.
    #[inline(never)]
    pub fn read(&self) -> u32 {
        let id = self.id;
        let chk = self.chk;
        let _o = Off::new();
        if id ^ CANARY != chk || id as usize >= reg().val_drops.len() {
            fail("memory", &format!("a value reference denotes garbage: id={id:#x} chk={chk:#x}"));
        }
        if reg().val_drops[id as usize] != 0 {
            fail("memory", &format!("a value reference denotes value #{id}, which was already dropped"));
        }
        id as u32
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let id = self.id;
        let chk = self.chk;
        let _o = Off::new();
        if id ^ CANARY != chk {
            fail("drop", &format!("dropping a corrupt value: id={id:#x} chk={chk:#x}"));
        }
        let d = &mut reg().val_drops[id as usize];
        *d += 1;
        if *d > 1 {
            fail("drop", &format!("value #{id} dropped twice"));
        }
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        inject(Site::Clone);
        let id = self.read();
        let k = reg().val_key[id as usize];
        let v = Val::new(k);
        let _o = Off::new();
        reg().val_class[v.id as usize] = reg().val_class[id as usize];
        CLONES.with(|c| c.borrow_mut().push((id, v.id as u32)));
        v
    }
}
thread_local! {
    pub static CLONES: std::cell::RefCell<Vec<(u32,u32)>> = const { std::cell::RefCell::new(Vec::new()) };
}

#[repr(C)]
pub struct Key {
    pub k: u32,
    pub inst: u32,
    pub chk: u64,
}
impl Key {
    pub fn new(k: u32) -> Key {
        let _o = Off::new();
        let r = reg();
        let inst = r.key_drops.len() as u32;
        r.key_drops.push(0);
        let by = r.by();
        r.key_by.push(by);
        r.key_k.push(k);
        Key { k, inst, chk: ((k as u64) << 32 | inst as u64) ^ CANARY }
    }
    #[inline(never)]
    pub fn read(&self) -> u32 {
        let (k, inst, chk) = (self.k, self.inst, self.chk);
        let _o = Off::new();
        if ((k as u64) << 32 | inst as u64) ^ CANARY != chk || inst as usize >= reg().key_drops.len() {
            fail("memory", &format!("a key reference denotes garbage: k={k:#x} inst={inst:#x} chk={chk:#x}"));
        }
        if reg().key_drops[inst as usize] != 0 {
            fail("memory", &format!("a key reference denotes key object #{inst} (key {k}), which was already dropped"));
        }
        let seen = &mut reg().key_seen;
        if seen.len() <= inst as usize {
            seen.resize(inst as usize + 8, false);
        }
        seen[inst as usize] = true;
        k
    }
}
impl Drop for Key {
    fn drop(&mut self) {
        let (k, inst, chk) = (self.k, self.inst, self.chk);
        let _o = Off::new();
        if ((k as u64) << 32 | inst as u64) ^ CANARY != chk {
            fail("drop", &format!("dropping a corrupt key: k={k:#x} inst={inst:#x}"));
        }
        let d = &mut reg().key_drops[inst as usize];
        *d += 1;
        if *d > 1 {
            fail("drop", &format!("key object #{inst} (key {k}) dropped twice"));
        }
    }
}
impl Clone for Key {
    fn clone(&self) -> Key {
        inject(Site::Clone);
        let k = Key::new(self.read());
        let _o = Off::new();
        if reg().set_mode {
            CLONES.with(|c| c.borrow_mut().push((self.inst, k.inst)));
        }
        k
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        inject(Site::Eq);
        self.k == o.k
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        inject(Site::Hash);
        h.write_u32(self.k)
    }
}
/// Borrowed lookup form.
#[derive(PartialEq, Eq)]
pub struct Q(pub u32);
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        inject(Site::Hash);
        h.write_u32(self.0)
    }
}
impl Equivalent<Key> for Q {
    fn equivalent(&self, k: &Key) -> bool {
        inject(Site::Eq);
        self.0 == k.k
    }
}

#[derive(Clone, Copy)]
pub struct Bh(pub u32);
pub struct Hs(u32, u64);
impl BuildHasher for Bh {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(self.0, 0)
    }
}
pub fn mix(z: u64) -> u64 {
    let z = z.wrapping_add(0x9E3779B97F4A7C15);
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Hasher for Hs {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = (self.1 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.1 = x as u64;
    }
    fn finish(&self) -> u64 {
        let k = self.1;
        match self.0 {
            0 => 0,                                  // everything collides
            1 => k,                                  // identity: distinct slots, same metadata
            2 => mix(k),                             // well distributed
            3 => k << 57,                            // one slot, distinct metadata
            4 => (k & 1) | (mix(k) & 0xFE00_0000_0000_0000), // two slots
            5 => (k & 3) | (k >> 2 & 1) << 57,       // four slots, two metadata values
            6 => (k / 3) | ((k % 3) << 57),          // neighbouring clusters
            7 if k < 64 => k << 57,                  // keys below 64 in one slot, the others spread
            7 => mix(k),
            // 8: keys below 64 start at slot 0, the others at the slots of a 64-slot table that the first
            // 31 steps from slot 0 do not reach
            _ if k < 64 => k << 57,
            _ => {
                let mut reached = 0u64;
                let mut at = 0;
                for step in 0..31 {
                    at = (at + step) & 63;
                    reached |= 1 << at;
                }
                let n = ((k - 64) % (64 - reached.count_ones() as u64)) as u32;
                let slot = (0..64u32).filter(|i| reached >> i & 1 == 0).nth(n as usize).unwrap() as u64;
                slot | (mix(k) & 0xFE00_0000_0000_0000)
            }
        }
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        let (a, b) = (self.read(), o.read());
        reg().val_class[a as usize] == reg().val_class[b as usize]
    }
}
impl Eq for Val {}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let id = self.read();
        debugged(id);
        f.debug_struct("Val").field("class", &reg().val_class[id as usize]).finish()
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let k = self.read();
        if reg().set_mode {
            debugged(self.inst);
        }
        write!(f, "K{k}")
    }
}
impl Default for Bh {
    fn default() -> Bh {
        Bh(2)
    }
}

impl<'de> serde::Deserialize<'de> for Key {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Key, D::Error> {
        let k = <u32 as serde::Deserialize>::deserialize(d)?;
        Ok(Key::new(k))
    }
}
impl<'de> serde::Deserialize<'de> for Val {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
        let k = <u32 as serde::Deserialize>::deserialize(d)?;
        Ok(Val::new(k))
    }
}

impl serde::Serialize for Key {
    fn serialize<Sr: serde::Serializer>(&self, s: Sr) -> Result<Sr::Ok, Sr::Error> {
        s.serialize_u32(self.read())
    }
}
impl serde::Serialize for Val {
    fn serialize<Sr: serde::Serializer>(&self, s: Sr) -> Result<Sr::Ok, Sr::Error> {
        let id = self.read();
        s.serialize_u32(crate::seq::off(|| reg().val_key[id as usize]))
    }
}
