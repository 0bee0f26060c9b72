//! Key and value types of many layouts, under two small traits.
use crate::ffi::{fail, Off};
use crate::types::*;
use papaya::Equivalent;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub trait KeyT: Send + Hash + Eq + Clone + Debug + 'static {
    type Q: ?Sized + Hash + Equivalent<Self>;
    /// how many different keys the type can represent
    const DOM: u32;
    fn mk(k: u32) -> Self;
    fn k(&self) -> u32;
    /// identity of the key object, 0 where equal keys are indistinguishable
    fn inst(&self) -> u32 {
        0
    }
    fn q<R>(k: u32, f: impl FnOnce(&Self::Q) -> R) -> R;
}
pub trait ValT: Send + Clone + Debug + PartialEq + 'static {
    fn mk(k: u32) -> Self;
    /// what identifies the value, as far as the type can carry it
    fn id(&self) -> u32;
    /// identity up to cloning
    fn class(&self) -> u32 {
        self.id()
    }
}
static mut SEQ: u32 = 0;
pub fn seq_reset() {
    unsafe { SEQ = 0 }
}
fn seq() -> u32 {
    unsafe {
        SEQ += 1;
        SEQ
    }
}
pub fn aligned<T>(p: &T) {
    if (p as *const T as usize) % std::mem::align_of::<T>() != 0 {
        fail("layout", &format!("a reference to {} is at {:p}, which is not aligned to {}", std::any::type_name::<T>(), p, std::mem::align_of::<T>()));
    }
}
fn garbage(what: &str) -> ! {
    fail("memory", &format!("a reference denotes garbage ({what})"))
}

impl KeyT for Key {
    type Q = Q;
    const DOM: u32 = u32::MAX;
    fn mk(k: u32) -> Key {
        Key::new(k)
    }
    fn k(&self) -> u32 {
        self.read()
    }
    fn inst(&self) -> u32 {
        self.inst
    }
    fn q<R>(k: u32, f: impl FnOnce(&Q) -> R) -> R {
        f(&Q(k))
    }
}
impl ValT for Val {
    fn mk(k: u32) -> Val {
        Val::new(k)
    }
    fn id(&self) -> u32 {
        self.read()
    }
    fn class(&self) -> u32 {
        reg().val_class[self.read() as usize]
    }
}

macro_rules! key {
    ($(#[$a:meta])* $n:ident, $dom:expr, $inner:ty, $mk:expr, $k:expr) => {
        $(#[$a])*
        #[derive(Clone, Debug)]
        pub struct $n(pub $inner);
        impl PartialEq for $n { fn eq(&self, o: &$n) -> bool { self.k() == o.k() } }
        impl Eq for $n {}
        impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u32(self.k()) } }
        impl KeyT for $n {
            type Q = $n;
            const DOM: u32 = $dom;
            #[allow(clippy::redundant_closure_call)]
            fn mk(k: u32) -> $n { $n(($mk)(k)) }
            #[allow(clippy::redundant_closure_call)]
            fn k(&self) -> u32 { ($k)(&self.0) }
            fn q<R>(k: u32, f: impl FnOnce(&$n) -> R) -> R { let q = $n::mk(k); f(&q) }
        }
    };
}
macro_rules! val {
    ($(#[$a:meta])* $n:ident, $inner:ty, $mk:expr, $id:expr) => {
        $(#[$a])*
        #[derive(Clone, Debug)]
        pub struct $n(pub $inner);
        impl PartialEq for $n { fn eq(&self, o: &$n) -> bool { self.id() == o.id() } }
        impl ValT for $n {
            #[allow(clippy::redundant_closure_call)]
            fn mk(_k: u32) -> $n { $n(($mk)(seq())) }
            #[allow(clippy::redundant_closure_call)]
            fn id(&self) -> u32 { ($id)(&self.0) }
        }
    };
}
key!(K8, 256, u8, |k: u32| k as u8, |x: &u8| *x as u32);
key!(#[derive(Copy)] K16, 65536, u16, |k: u32| k as u16, |x: &u16| *x as u32);
key!(K0, 1, (), |_k: u32| (), |_: &()| 0);
key!(K128, u32::MAX, u128, |k: u32| (k as u128) << 64 | (!k) as u128, |x: &u128| {
    let k = (*x >> 64) as u32;
    if *x as u64 as u32 != !k { garbage("u128 key") }
    k
});
key!(#[repr(align(64))] KA64, u32::MAX, u32, |k: u32| k, |x: &u32| *x);
key!(KBig, u32::MAX, [u64; 40], |k: u32| [k as u64; 40], |x: &[u64; 40]| {
    if x.iter().any(|y| *y != x[0]) { garbage("large key") }
    x[0] as u32
});
key!(KBox, u32::MAX, Box<u32>, |k: u32| Box::new(k), |x: &u32| *x);
key!(K3, 1 << 24, [u8; 3], |k: u32| [k as u8, (k >> 8) as u8, (k >> 16) as u8], |x: &[u8; 3]| x[0] as u32 | (x[1] as u32) << 8 | (x[2] as u32) << 16);

impl KeyT for String {
    type Q = str;
    const DOM: u32 = u32::MAX;
    fn mk(k: u32) -> String {
        format!("key{k}")
    }
    fn k(&self) -> u32 {
        match self.strip_prefix("key").and_then(|s| s.parse().ok()) {
            Some(k) => k,
            None => garbage("string key"),
        }
    }
    fn q<R>(k: u32, f: impl FnOnce(&str) -> R) -> R {
        let s = {
            let _o = Off::new();
            format!("key{k}")
        };
        f(&s)
    }
}

val!(V0, (), |_s: u32| (), |_: &()| 0);
val!(V8, u8, |s: u32| s as u8, |x: &u8| *x as u32);
val!(#[derive(Copy)] V16, u16, |s: u32| s as u16, |x: &u16| *x as u32);
val!(V128, u128, |s: u32| (s as u128) << 64 | (!s) as u128, |x: &u128| {
    let k = (*x >> 64) as u32;
    if *x as u64 as u32 != !k { garbage("u128 value") }
    k
});
val!(#[repr(align(128))] VA128, u32, |s: u32| s, |x: &u32| *x);
val!(#[repr(align(4096))] VA4096, u32, |s: u32| s, |x: &u32| *x);
val!(VBig, [u64; 300], |s: u32| [s as u64; 300], |x: &[u64; 300]| {
    if x.iter().any(|y| *y != x[0]) { garbage("large value") }
    x[0] as u32
});
val!(VStr, String, |s: u32| format!("v{s}"), |x: &String| match x.strip_prefix('v').and_then(|s| s.parse().ok()) {
    Some(k) => k,
    None => garbage("string value"),
});
val!(VBox, Option<Box<u64>>, |s: u32| if s % 4 == 0 { None } else { Some(Box::new(s as u64)) }, |x: &Option<Box<u64>>| x.as_ref().map_or(0, |b| **b as u32));
val!(V5, [u8; 5], |s: u32| [s as u8, (s >> 8) as u8, 0x5A, s as u8, (s >> 8) as u8], |x: &[u8; 5]| {
    if x[2] != 0x5A || x[0] != x[3] || x[1] != x[4] { garbage("byte array") }
    x[0] as u32 | (x[1] as u32) << 8
});
