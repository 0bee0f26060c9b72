//! Generated-schedule testing of papaya: structured random concurrent programs run under a
//! deterministic scheduler, every history checked against a per-key reference model.
pub mod driver;
pub mod exec;
pub mod ffi;
pub mod gen;
pub mod layouts;
pub mod oracle;
pub mod seq;
pub mod seqgen;
pub mod seqrun;
pub mod spec;
pub mod types;

use spec::Case;
use std::ffi::CStr;
use std::os::raw::c_char;

#[global_allocator]
static A: ffi::Alloc = ffi::Alloc;

pub static mut OUT: Option<String> = None;

#[derive(serde::Serialize, serde::Deserialize, Clone)]
pub enum AnyCase {
    /// concurrent, under a schedule
    M(Case),
    /// sequential
    S(seq::SCase),
}

#[derive(serde::Serialize, serde::Deserialize, Clone)]
pub struct Report {
    pub property: String,
    pub kind: String,
    pub msg: String,
    pub index: u64,
    /// the case with the schedule that was followed, as explicit switches
    pub case: AnyCase,
    /// the case as generated
    pub original: AnyCase,
}
pub static mut PROP: String = String::new();
pub static mut INDEX: u64 = 0;
/// the sequential case being run, if any
pub static mut CUR_S: *const seq::SCase = std::ptr::null();

#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn mh_on_violation(kind: *const c_char, msg: *const c_char) -> ! {
    unsafe {
        let kind = CStr::from_ptr(kind).to_string_lossy().to_string();
        let msg = CStr::from_ptr(msg).to_string_lossy().to_string();
        let c = exec::sh().case;
        if (c.is_null() && CUR_S.is_null()) || OUT.is_none() {
            eprintln!("{kind}: {msg}");
            ffi::exit_now(2);
        }
        let (case, original) = if !CUR_S.is_null() {
            let c = AnyCase::S((*CUR_S).clone());
            (c.clone(), c)
        } else {
            let original = (*c).clone();
            let mut case = original.clone();
            let mut p: *const ffi::Switch = std::ptr::null();
            let n = ffi::rt_log(&mut p);
            case.switches = std::slice::from_raw_parts(p, n as usize).to_vec();
            case.rt.policy = 2;
            (AnyCase::M(case), AnyCase::M(original))
        };
        let r = Report { property: PROP.clone(), kind, msg, index: INDEX, case, original };
        let _ = std::fs::write(OUT.as_ref().unwrap(), serde_json::to_string_pretty(&r).unwrap());
        ffi::exit_now(10);
    }
}

/// Runs a sequential case of a kind and layout it knows; the crates that instantiate papaya register one each.
pub type Runner = fn(&seq::SCase) -> Option<seq::SInfo>;
pub static mut RUNNERS: &[Runner] = &[];

pub fn main(runners: &'static [Runner]) {
    unsafe { RUNNERS = runners };
    let a: Vec<String> = std::env::args().collect();
    driver::main(&a[1..]);
}
