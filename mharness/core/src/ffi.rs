//! Interface to the runtime in rt/rt.c and the dispatching global allocator.
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::raw::{c_char, c_int};

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct RtCfg {
    pub policy: u32,
    pub p_shift: u32,
    pub depth: u32,
    pub horizon: u32,
    pub seed: u64,
    pub tso: u32,
    pub cpus: u32,
    pub misalign: u32,
    pub check_races: u32,
    pub freeze_step: u32,
    pub freeze_tid: u32,
    pub fair_after: u32,
    pub step_limit: u32,
    pub solo_limit: u32,
    pub spurious: u32,
    pub quantum: u32,
    #[serde(default)]
    pub hold_reader: u32,
    #[serde(default)]
    pub weak: u32,
    #[serde(default)]
    pub weak_shift: u32,
    #[serde(default)]
    pub weak_cas: u32,
    #[serde(default)]
    pub weak_nosync: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Switch {
    pub step: u32,
    pub tid: u32,
}

extern "C" {
    pub fn rt_init();
    pub fn rt_pin(cpu: c_int);
    pub fn rt_real_cpus() -> c_int;
    pub fn rt_real_cpu_nth(k: c_int) -> c_int;
    pub fn rt_case_begin(c: *const RtCfg, ex: *const Switch, n: u32);
    pub fn rt_case_end();
    pub fn rt_set(v: c_int) -> c_int;
    pub fn rt_tid() -> c_int;
    pub fn rt_step() -> u64;
    pub fn rt_frozen() -> c_int;
    pub fn rt_point();
    pub fn rt_flush_mine();
    pub fn rt_log(out: *mut *const Switch) -> u32;
    pub fn rt_stats(o: *mut u64);
    pub fn rt_stats2(o: *mut u64);
    pub fn rt_run_threads(n: u32);
    pub fn rt_worker_register(tid: c_int);
    pub fn rt_worker_wait(tid: c_int);
    pub fn rt_worker_done(tid: c_int);
    pub fn rt_alloc(size: u64, align: u64, zero: c_int) -> *mut u8;
    pub fn rt_dealloc(p: *mut u8, size: u64, align: u64);
    pub fn rt_in_arena(p: *const u8) -> c_int;
    pub fn rt_is_on() -> c_int;
    pub fn rt_live_bytes() -> u64;
    pub fn rt_live_count() -> u64;
    pub fn rt_peak_bytes() -> u64;
    pub fn rt_live_sizes(o: *mut u64, n: u64) -> u64;
    pub fn rt_live_zeroed() -> u64;
    pub fn rt_alloc_total() -> u64;
    pub fn rt_reset_peak();
    pub fn rt_describe_leak(buf: *mut c_char, n: u64) -> c_int;
    pub fn rt_is_live(p: *const u8, n: u64) -> c_int;
    pub fn rt_fail(kind: *const c_char, msg: *const c_char) -> !;
}

pub struct Alloc;

/// Number of zeroed allocations made while a case is active; tables are allocated zeroed.
pub static mut ZEROED: u64 = 0;
pub static mut ZEROED_BYTES: u64 = 0;
pub static mut ZEROED_MAX: u64 = 0;
/// largest single allocation since it was last reset
pub static mut ALLOC_MAX: u64 = 0;

unsafe impl GlobalAlloc for Alloc {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt_is_on() != 0 {
            let o = rt_set(0);
            if l.size() as u64 > ALLOC_MAX {
                ALLOC_MAX = l.size() as u64;
            }
            rt_set(o);
            rt_alloc(l.size() as u64, l.align() as u64, 0)
        } else {
            System.alloc(l)
        }
    }
    #[inline(never)]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if rt_is_on() != 0 {
            let o = rt_set(0);
            ZEROED += 1;
            if l.size() as u64 > ALLOC_MAX {
                ALLOC_MAX = l.size() as u64;
            }
            ZEROED_BYTES += l.size() as u64;
            if l.size() as u64 > ZEROED_MAX {
                ZEROED_MAX = l.size() as u64;
            }
            rt_set(o);
            rt_alloc(l.size() as u64, l.align() as u64, 1)
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_in_arena(p) != 0 {
            rt_dealloc(p, l.size() as u64, l.align() as u64)
        } else {
            System.dealloc(p, l)
        }
    }
    #[inline(never)]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if rt_in_arena(p) != 0 || rt_is_on() != 0 {
            let q = self.alloc(nl);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// Runs harness code with instrumentation off.
pub struct Off(c_int);
impl Off {
    #[inline]
    pub fn new() -> Off {
        Off(unsafe { rt_set(0) })
    }
}
impl Drop for Off {
    #[inline]
    fn drop(&mut self) {
        unsafe { rt_set(self.0) };
    }
}
/// Runs code with instrumentation on.
pub struct On(c_int);
impl On {
    #[inline]
    pub fn new() -> On {
        On(unsafe { rt_set(1) })
    }
}
impl Drop for On {
    #[inline]
    fn drop(&mut self) {
        unsafe { rt_set(self.0) };
    }
}

pub fn exit_now(code: i32) -> ! {
    extern "C" {
        fn _exit(c: c_int) -> !;
    }
    unsafe { _exit(code) }
}

pub fn fail(kind: &str, msg: &str) -> ! {
    unsafe { rt_set(0) };
    let k = std::ffi::CString::new(kind).unwrap();
    let m = std::ffi::CString::new(msg.replace('\0', "?")).unwrap();
    unsafe { rt_fail(k.as_ptr(), m.as_ptr()) }
}
