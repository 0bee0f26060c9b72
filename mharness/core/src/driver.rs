//! Command line: worker processes, the parent that runs a check, shrinking, replay.
use crate::exec::{self, run_case, sh};
use crate::ffi::*;
use crate::gen::{gen, Rng};
use crate::spec::*;
use crate::types::{is_may_panic, mix, reg};
use crate::seq::{SCase, SInfo};
use crate::seqgen::{gen_s, shrink_s};
use crate::seqrun::{run_scase, EXPECT_PANIC};
use crate::types::Injected;
use crate::{AnyCase, Report, CUR_S, INDEX, OUT, PROP};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Child, Command};
use std::time::{Duration, Instant};

pub fn owns(prop: &str, kind: &str) -> bool {
    let common = ["crash", "memory", "panic", "drop", "deadlock", "nontermination"];
    if common.contains(&kind) {
        return true;
    }
    let own: &[&str] = match prop {
        "C01" | "C02" => &["model", "closure", "conv", "iteration", "len"],
        "C03" | "C04" => &["linearizability", "closure", "final-state", "model"],
        "C05" => &["linearizability", "closure", "final-state", "iteration", "bulk", "len", "model"],
        "C06" => &["iteration"],
        "C07" => &["bulk", "final-state", "linearizability", "model", "closure"],
        "C08" => &["len"],
        "C10" => &["leak"],
        "C11" => &["garbage", "leak"],
        "C12" => &["race"],
        "C14" => &["blocked-read"],
        "C15" => &["capacity", "model"],
        "C16" => &["conv", "model", "iteration", "len"],
        "C17" => &["guard"],
        "C18" => &["panic-safety"],
        "C19" => &["layout", "model", "closure", "conv", "leak", "iteration", "len"],
        "C21" => &["serde", "leak"],
        "C22" => &["key-identity"],
        _ => &[],
    };
    own.contains(&kind)
}

/// One case in `n` of the property is sequential; 0: none, 1: all.
fn seq_share(prop: &str) -> u64 {
    match prop {
        "C01" | "C02" | "C15" | "C16" | "C17" | "C19" | "C21" => 1,
        "C18" | "C22" => 2,
        "C10" => 4,
        "C11" => 48,
        "C03" | "C04" | "C13" => 16,
        "C05" | "C06" | "C07" | "C08" => 8,
        _ => 0,
    }
}
pub fn gen_any(prop: &str, seed: u64, i: u64) -> AnyCase {
    let s = mix(seed) ^ mix(i.wrapping_mul(2654435761) ^ mix(prop.bytes().fold(0, |a, b| a * 131 + b as u64)));
    let share = seq_share(prop);
    if share > 0 && mix(i ^ 0xABCD) % share == 0 { AnyCase::S(gen_s(prop, s)) } else { AnyCase::M(gen(prop, s)) }
}

/// Number of cases: about 30 s of eight processes for quick, 12 minutes for thorough.
pub fn cases(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C01" => 260_000,
        "C02" => 330_000,
        "C10" => 500_000,
        "C11" => 350_000,
        "C15" => 55_000,
        "C16" => 80_000,
        "C17" => 75_000,
        "C18" => 280_000,
        "C19" => 300_000,
        "C21" => 900_000,
        "C22" => 480_000,
        _ => 650_000,
    };
    if thorough { q * 15 } else { q * 7 / 10 }
}
/// A slow machine explores fewer cases rather than none.
fn deadline(thorough: bool) -> Duration {
    let d = if thorough { 1800 } else { 240 };
    Duration::from_secs(std::env::var("MH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}
const SEQ_GEN: &str = "Each case is a generated configuration (hasher, resize mode and chunk, capacity, collector, key/value layout, builder or constructor), and a generated sequence of operations or inputs, run on the real code next to a reference model";
const CONC_GEN: &str = "Each case is a generated map configuration, sequential prelude, 2-4 thread programs and schedule, run on the real code under a deterministic scheduler";
fn generated(prop: &str) -> String {
    match seq_share(prop) {
        0 => CONC_GEN.into(),
        1 => SEQ_GEN.into(),
        n => format!("One case in {n} is sequential, the others are concurrent. Concurrent: {CONC_GEN}. Sequential: {SEQ_GEN}"),
    }
}
fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["at most about 60 keys have the same hash (a table doubles for about every five further ones, see DESIGN.md)"];
    if seq_share(prop) != 1 {
        v.push("schedules interleave at atomic accesses, fences, futex calls and closure boundaries; memory is sequentially consistent, TSO (store buffers) or a bounded-staleness subset of C++20 (stale relaxed and acquire loads), spurious failures of weak compare-exchanges included; store-to-load speculation (load buffering, out-of-thin-air) is not modelled");
    }
    v.push("papaya is compiled by the nightly toolchain with AtomicPtr::fetch_or hidden, so that the polyfill the repository's own toolchain uses is what runs");
    v
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C05" => "a case counts if threads were preempted mid-operation and at least one table was allocated, or an incremental resize was in progress, during the concurrent phase; distinct by hash of (configuration, programs, followed schedule)",
        "C06" => "a case counts if an iteration overlapped a modifying operation of another thread; distinct by hash of (configuration, programs, followed schedule)",
        "C07" => "a case counts if a clear or retain overlapped an operation of another thread; distinct by hash of (configuration, programs, followed schedule)",
        "C13" => "a case counts if at least one thread blocked or a table was allocated during the concurrent phase; distinct by hash of (configuration, programs, followed schedule)",
        "C14" => "a case counts if all other threads were frozen while the reader still had steps to take; distinct by hash of (configuration, programs, followed schedule)",
        "C08" => "a case counts if two modifying operations of different threads overlapped before the quiescent audit; distinct by hash of (configuration, programs, followed schedule)",
        "C01" => "a case counts if at least one entry was replaced or removed and at least one table allocated; distinct by hash of (configuration, layout, operations)",
        "C02" => "a case counts if at least one element was inserted again or removed and at least one table allocated; distinct by hash of (configuration, layout, operations)",
        "C15" => "a case counts if it allocates a table and has at least two steps; distinct by hash of (configuration, steps)",
        "C16" => "a case counts if the compared collections have at least one element; distinct by hash of (configuration, operations, elements)",
        "C17" => "a case counts if at least one operation was called with a foreign guard; distinct by hash of (configuration, operations)",
        "C18" => "a case counts if at least one panic in user code escaped from an operation; distinct by hash of (configuration, operations or programs, followed schedule)",
        "C19" => "a case counts if at least one entry was replaced or removed and at least one table allocated; distinct by hash of (configuration, layout, allocator placement, operations)",
        "C21" => "a case counts if the input has at least one token; distinct by hash of (type, input)",
        "C22" => "a sequential case counts if an operation met an equal key that is a different object, a concurrent one if operations on the same key overlapped in time, at least one of them modifying; distinct by hash of (configuration, operations or programs, followed schedule)",
        _ => "a case counts if operations of different threads on the same key (or a whole-map operation) overlapped in time, at least one of them modifying; distinct by hash of (configuration, programs, followed schedule)",
    }
}

fn stats() -> [u64; 14] {
    let mut s = [0u64; 14];
    unsafe { rt_stats(s.as_mut_ptr()) };
    s
}

fn weak_stats() -> [u64; 2] {
    let mut s = [0u64; 2];
    unsafe { rt_stats2(s.as_mut_ptr()) };
    s
}

fn hash_case(c: &Case) -> u64 {
    let t = serde_json::to_string(&(&c.map, &c.prelude, &c.threads, c.rt.tso, c.rt.weak, if c.rt.weak > 0 || c.rt.weak_cas > 0 { c.rt.seed } else { 0 }, c.rt.freeze_step, c.drop_early)).unwrap();
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut p: *const Switch = std::ptr::null();
    let n = unsafe { rt_log(&mut p) };
    for s in unsafe { std::slice::from_raw_parts(p, n as usize) } {
        h = mix(h ^ (s.step as u64) << 8 ^ s.tid as u64);
    }
    h
}

fn start_runtime() {
    unsafe { rt_init() };
    std::panic::set_hook(Box::new(|i| {
        let on = unsafe { rt_set(0) };
        if i.payload().is::<Injected>() || is_may_panic() {
            // unwinding runs code under test
            unsafe { rt_set(on) };
            return;
        }
        if unsafe { EXPECT_PANIC } {
            return;
        }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| l.to_string()).unwrap_or_default();
        fail("panic", &format!("a thread panicked: {m} at {loc}"));
    }));
    exec::warm();
    let mut ths = vec![std::thread::current()];
    for t in 1..=4 {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let _ = tx.send(std::thread::current());
                exec::worker(t)
            })
            .unwrap();
        ths.push(rx.recv().unwrap());
    }
    std::thread::sleep(Duration::from_millis(5));
    sh().threads = ths;
}

fn nontrivial(prop: &str, info: &exec::RunInfo, d: &[u64; 14], frozen_steps: u64) -> bool {
    let h = &sh().hist;
    let resizing = info.zeroed > 0;
    let bulk = |f: fn(&Op) -> bool| {
        h[..info.audit].iter().filter(|r| r.tid != 0 && f(&r.op)).any(|r| h[..info.audit].iter().any(|o| o.tid != 0 && o.tid != r.tid && o.inv < r.ret && r.inv < o.ret && !matches!(o.op, Op::Get(_) | Op::GetKv(_) | Op::Contains(_) | Op::Len | Op::IsEmpty | Op::Iter(_))))
    };
    match prop {
        "C05" => d[1] > 0 && resizing,
        "C06" => bulk(|o| matches!(o, Op::Iter(_) | Op::IterAround(..) | Op::CloneMap)),
        "C07" => bulk(|o| matches!(o, Op::Clear | Op::Retain(_))),
        "C13" => d[2] > 0 || resizing,
        "C14" => frozen_steps > 0,
        "C08" => info.verdict.overlapped,
        "C18" => !reg().panicked.is_empty(),
        _ => info.verdict.same_key_overlap,
    }
}

fn run_any_s(c: &SCase) -> SInfo {
    unsafe { CUR_S = c };
    let i = run_scase(c);
    unsafe { CUR_S = std::ptr::null() };
    i
}
fn nontrivial_s(prop: &str, i: &SInfo, c: &SCase) -> bool {
    match prop {
        "C11" => i.removed > 0,
        "C15" => c.nums.len() >= 4 && i.extra > 0,
        "C16" => i.extra > 0 || c.kind != "conv" && i.ops > 0,
        "C17" => i.foreign > 0,
        "C18" => i.faults > 0,
        "C21" => c.text.len() > 2 || !c.keys.is_empty(),
        "C22" => i.replaced > 0,
        "C06" => i.tables > 0 && i.iters > 0,
        "C07" => i.bulk > 0 && i.removed > 0,
        _ => i.tables > 0 && i.replaced + i.removed > 0 || c.kind == "conv" && i.extra > 0,
    }
}
fn hash_scase(c: &SCase) -> u64 {
    let t = serde_json::to_string(&(&c.kind, c.layout, c.builder, &c.map, &c.keys, &c.segs, c.rt.misalign, &c.text, &c.nums)).unwrap();
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
fn sample_s(i: u64, c: &SCase, info: &SInfo) -> Value {
    let ops: Vec<String> = c.segs.iter().map(|s| format!("form {}: {}", s.form, s.ops.iter().take(20).map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; "))).collect();
    json!({"index": i, "kind": c.kind, "layout": c.layout, "builder": c.builder, "map": c.map, "keys": c.keys.iter().take(20).collect::<Vec<_>>(), "segments": ops, "text": c.text.chars().take(200).collect::<String>(), "steps": c.nums.iter().take(40).collect::<Vec<_>>(), "operations_run": info.ops, "tables": info.tables, "replaced": info.replaced, "removed": info.removed})
}

fn history_text(limit: usize) -> Vec<String> {
    sh().hist.iter().filter(|r| r.tid != 0).take(limit).map(|r| format!("[{}..{}] T{} {:?} => {:?}", r.inv, r.ret, r.tid, r.op, r.res)).collect()
}

#[allow(static_mut_refs)]
fn worker(a: &[String]) -> ! {
    let (prop, tier, seed) = (a[0].clone(), a[1].clone(), a[2].parse::<u64>().unwrap());
    let shard: u64 = a[3].parse().unwrap();
    let nshards: u64 = a[4].parse().unwrap();
    let from: u64 = a[5].parse().unwrap();
    let n: u64 = a[6].parse().unwrap();
    let dir = a[7].clone();
    let _ = tier;
    unsafe {
        rt_pin(rt_real_cpu_nth((shard % rt_real_cpus() as u64) as i32));
        OUT = Some(format!("{dir}/viol{shard}.json"));
        PROP = prop.clone();
    }
    start_runtime();
    let pf = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{dir}/prog{shard}")).unwrap();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut c: BTreeMap<&str, u64> = BTreeMap::new();
    let mut i = from;
    let known = std::env::var("MH_KNOWN").unwrap_or_default();
    unsafe { crate::seq::INSERT_MAY_REPLACE_KEY = prop != "C22" || known.contains("insert-replaces-key") };
    let flushstats = |i: u64, c: &BTreeMap<&str, u64>, distinct: &HashSet<u64>, samples: &Vec<Value>| {
        let o = json!({"next": i, "counts": c, "samples": samples});
        std::fs::write(format!("{dir}/stat{shard}.{from}.json"), serde_json::to_string(&o).unwrap()).unwrap();
        let mut b = vec![];
        for x in distinct {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(format!("{dir}/hash{shard}.{from}"), b).unwrap();
    };
    while i < n {
        if (i / nshards) % 32 == 0 {
            use std::os::unix::fs::FileExt;
            let _ = pf.write_at(&i.to_le_bytes(), 0);
        }
        let any = gen_any(&prop, seed, i);
        unsafe { INDEX = i };
        let s0 = stats();
        let w0 = weak_stats();
        // keep statistics current so that nothing is lost if this case ends the process
        if i % 4096 == shard {
            flushstats(i, &c, &distinct, &samples);
        }
        let case = match &any {
            AnyCase::S(case) => {
                let info = run_any_s(case);
                let mut add = |k: &'static str, v: u64| *c.entry(k).or_default() += v;
                add("cases", 1);
                add("sequential_cases", 1);
                add(match case.kind.as_str() { "map" => "cases_map", "set" => "cases_set", "conv" => "cases_conversion", "serde" => "cases_serde", "churn" => "cases_churn", _ => "cases_capacity" }, 1);
                add("operations", info.ops);
                add("tables_allocated", info.tables);
                add("injected_faults_fired", info.faults);
                add("foreign_guard_calls", info.foreign);
                add("entries_replaced", info.replaced);
                add("entries_removed", info.removed);
                add("bulk_operations", info.bulk);
                add("keys_replaced_by_insert", info.known_key_replaced);
                add("cases_misaligned_allocator", (case.rt.misalign > 0) as u64);
                add("cases_blocking_mode", case.map.blocking as u64);
                if nontrivial_s(&prop, &info, case) {
                    distinct.insert(hash_scase(case));
                    if samples.len() < 2 && shard == 0 {
                        samples.push(sample_s(i, case, &info));
                    }
                }
                i += nshards;
                continue;
            }
            AnyCase::M(case) => case,
        };
        let info = run_case(case);
        let s1 = stats();
        let mut d = [0u64; 14];
        for k in 0..11 {
            d[k] = s1[k] - s0[k];
        }
        let mut add = |k: &'static str, v: u64| *c.entry(k).or_default() += v;
        add("cases", 1);
        add("scheduling_points", info.steps);
        add("context_switches", d[0]);
        add("preemptions", d[1]);
        add("blocked_waits", d[2]);
        add("cases_with_blocking", (d[2] > 0) as u64);
        add("cases_with_table_allocation_in_threads", (info.zeroed > 0) as u64);
        add("cases_with_nested_or_repeated_resize", (info.zeroed > 1) as u64);
        add("cases_blocking_mode", case.map.blocking as u64);
        add("cases_tso", (case.rt.tso > 0) as u64);
        add("cases_weak_memory", (case.rt.weak > 0) as u64);
        let w = weak_stats();
        add("loads_of_overwritten_values", w[0] - w0[0]);
        add("spurious_weak_cas_failures", w[1] - w0[1]);
        add("cases_same_key_overlap", info.verdict.same_key_overlap as u64);
        add("plain_accesses_checked", d[5]);
        add("atomic_accesses_checked", d[4]);
        add("operations", sh().hist.len() as u64);
        add("operations_ended_by_a_panic", reg().panicked.len() as u64);
        add("oracle_gave_up", info.verdict.inconclusive as u64);
        let solo = if case.rt.freeze_tid > 0 { s1[12] } else { 0 };
        add("frozen_reader_steps", solo);
        if nontrivial(&prop, &info, &d, solo) {
            distinct.insert(hash_case(case));
            if samples.len() < 2 && shard == 0 {
                samples.push(json!({"index": i, "map": case.map, "prelude_ops": case.prelude.len(), "threads": case.threads, "schedule_policy": case.rt.policy, "steps": info.steps, "preemptions": d[1], "history": history_text(24)}));
            }
        }
        i += nshards;
    }
    flushstats(i, &c, &distinct, &samples);
    exit_now(0)
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// Runs one case, or `n` variants of its random seed; exit 10 and a report in `out` on the first violation.
#[allow(static_mut_refs)]
fn run(file: &str, out: &str, n: u64, cpu: i32) -> ! {
    let t = std::fs::read_to_string(file).unwrap();
    let v: Value = serde_json::from_str(&t).unwrap();
    let cv = if v.get("case").is_some() { v["case"].clone() } else { v.clone() };
    let case: AnyCase = serde_json::from_value(cv).unwrap();
    unsafe {
        crate::seq::INSERT_MAY_REPLACE_KEY = v["property"].as_str() != Some("C22") && std::env::var("MH_STRICT_KEYS").is_err();
        rt_pin(rt_real_cpu_nth(cpu % rt_real_cpus()));
        OUT = Some(out.to_string());
        PROP = v["property"].as_str().unwrap_or("").to_string();
    }
    start_runtime();
    let case = match case {
        AnyCase::S(c) => {
            run_any_s(&c);
            exit_now(0)
        }
        AnyCase::M(c) => c,
    };
    for i in 0..n {
        let mut c = case.clone();
        if i > 0 {
            c.rt.seed = mix(case.rt.seed ^ i);
            c.rt.horizon = [case.rt.horizon, 40, 120, 400][(i % 4) as usize];
        }
        run_case(&c);
    }
    exit_now(0)
}

struct Shrinker {
    dir: String,
    kind: String,
    n: u64,
    deadline: Instant,
    tries: u64,
}
impl Shrinker {
    /// Tries candidates in parallel, returns the first (by order) that still fails.
    fn first(&mut self, cands: &[AnyCase], variants: u64) -> Option<Report> {
        for chunk in cands.chunks(8) {
            if Instant::now() > self.deadline {
                return None;
            }
            let mut ch: Vec<(Child, String)> = vec![];
            for (j, c) in chunk.iter().enumerate() {
                self.n += 1;
                self.tries += 1;
                let f = format!("{}/cand{}.json", self.dir, self.n);
                let o = format!("{}/cand{}.out", self.dir, self.n);
                std::fs::write(&f, serde_json::to_string(c).unwrap()).unwrap();
                ch.push((
                    Command::new(exe()).args(["search", &f, &o, &variants.to_string(), &j.to_string()]).stderr(std::process::Stdio::null()).spawn().unwrap(),
                    o,
                ));
            }
            let mut best = None;
            for (mut c, o) in ch {
                let st = wait_timeout(&mut c, Duration::from_secs(20));
                if best.is_none() && st == Some(10) {
                    if let Ok(t) = std::fs::read_to_string(&o) {
                        if let Ok(r) = serde_json::from_str::<Report>(&t) {
                            if r.kind == self.kind {
                                best = Some(r);
                            }
                        }
                    }
                }
            }
            if best.is_some() {
                return best;
            }
        }
        None
    }
}
fn wait_timeout(c: &mut Child, d: Duration) -> Option<i32> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return s.code();
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn shrink(first: Report, dir: &str, secs: u64) -> (Report, u64) {
    let mut s = Shrinker { dir: dir.into(), kind: first.kind.clone(), n: 0, deadline: Instant::now() + Duration::from_secs(secs), tries: 0 };
    let mut best = first;
    if let AnyCase::S(_) = best.case {
        loop {
            let AnyCase::S(c) = &best.case else { unreachable!() };
            let cands: Vec<AnyCase> = shrink_s(c).into_iter().map(AnyCase::S).collect();
            match s.first(&cands, 1) {
                Some(r) => best = r,
                None => return (best, s.tries),
            }
        }
    }
    fn m(a: &AnyCase) -> &Case {
        match a {
            AnyCase::M(c) => c,
            AnyCase::S(_) => unreachable!(),
        }
    }
    let orig_rt = m(&best.original).rt;
    // structure: drop threads, operations, prelude blocks (re-searching schedules)
    loop {
        let c = m(&best.original).clone();
        let mut cands = vec![];
        if c.threads.len() > 1 {
            for t in 0..c.threads.len() {
                if c.rt.freeze_tid as usize == t + 1 {
                    continue;
                }
                let mut d = c.clone();
                d.threads.remove(t);
                if d.rt.freeze_tid as usize > t + 1 {
                    d.rt.freeze_tid -= 1;
                }
                cands.push(d);
            }
        }
        let p = c.prelude.len();
        let mut sz = p;
        while sz > 0 {
            let mut i = 0;
            while i < p {
                let mut d = c.clone();
                d.prelude.drain(i..(i + sz).min(p));
                cands.push(d);
                i += sz;
            }
            if cands.len() > 60 {
                break;
            }
            sz /= 2;
        }
        for t in 0..c.threads.len() {
            for o in 0..c.threads[t].ops.len() {
                let mut d = c.clone();
                d.threads[t].ops.remove(o);
                cands.push(d);
            }
        }
        for t in 0..c.threads.len() {
            if c.threads[t].guard != GuardKind::PerOp {
                let mut d = c.clone();
                d.threads[t].guard = GuardKind::PerOp;
                cands.push(d);
            }
        }
        for d in &mut cands {
            d.switches.clear();
            d.rt.policy = if orig_rt.policy == 2 { 0 } else { orig_rt.policy };
        }
        let cands: Vec<AnyCase> = cands.into_iter().map(AnyCase::M).collect();
        match s.first(&cands, 150) {
            Some(r) => best = r,
            None => break,
        }
    }
    // schedule: drop explicit switches
    loop {
        let c = m(&best.case).clone();
        let n = c.switches.len();
        let mut cands = vec![];
        let mut sz = n / 2;
        while sz >= 1 && cands.len() < 120 {
            let mut i = 0;
            while i < n {
                let mut d = c.clone();
                d.switches.drain(i..(i + sz).min(n));
                cands.push(d);
                i += sz;
            }
            sz /= 2;
        }
        let cands: Vec<AnyCase> = cands.into_iter().map(AnyCase::M).collect();
        match s.first(&cands, 1) {
            Some(r) if m(&r.case).switches.len() < n => best = r,
            _ => break,
        }
    }
    (best, s.tries)
}

fn check(a: &[String]) -> i32 {
    let (prop, tier, seed) = (a[0].clone(), a[1].clone(), a[2].parse::<u64>().unwrap());
    let evidence = &a[3];
    let replay = &a[4];
    let dir = a[5].clone();
    let thorough = tier == "thorough";
    let n: u64 = std::env::var("MH_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(cases(&prop, thorough));
    let nsh: u64 = (unsafe { rt_real_cpus() } as u64).clamp(2, 8);
    let t0 = Instant::now();
    std::fs::create_dir_all(&dir).unwrap();
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let _ = std::fs::remove_file(e.path());
    }
    struct W {
        ch: Option<Child>,
        last: u64,
        at: Instant,
        foreign: u64,
    }
    let spawn = |sh: u64, from: u64| {
        Command::new(exe())
            .args(["worker", &prop, &tier, &seed.to_string(), &sh.to_string(), &nsh.to_string(), &from.to_string(), &n.to_string(), &dir])
            .spawn()
            .unwrap()
    };
    let mut ws: Vec<W> = (0..nsh).map(|s| W { ch: Some(spawn(s, s)), last: u64::MAX, at: Instant::now(), foreign: 0 }).collect();
    let mut found: Option<Report> = None;
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut err = None;
    let (limit, mut timed_out) = (deadline(thorough), false);
    while found.is_none() && err.is_none() && ws.iter().any(|w| w.ch.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        if t0.elapsed() > limit {
            timed_out = true;
            break;
        }
        for s in 0..nsh {
            let w = &mut ws[s as usize];
            let Some(ch) = &mut w.ch else { continue };
            match ch.try_wait() {
                Ok(Some(st)) => match st.code() {
                    Some(0) => w.ch = None,
                    Some(10) => {
                        let t = std::fs::read_to_string(format!("{dir}/viol{s}.json")).unwrap_or_default();
                        match serde_json::from_str::<Report>(&t) {
                            Ok(r) if r.kind == "error" => err = Some(format!("case {}: {}", r.index, r.msg)),
                            Ok(r) if owns(&prop, &r.kind) => {
                                if found.as_ref().is_none_or(|f| r.index < f.index) {
                                    found = Some(r);
                                }
                                w.ch = None;
                            }
                            Ok(r) => {
                                *foreign.entry(r.kind.clone()).or_default() += 1;
                                w.foreign += 1;
                                if w.foreign > 200 {
                                    // the tree breaks another property so often that this one cannot be explored
                                    w.ch = None;
                                } else {
                                    w.ch = Some(spawn(s, r.index + nsh));
                                }
                            }
                            Err(e) => err = Some(format!("unreadable violation report: {e}")),
                        }
                    }
                    c => err = Some(format!("worker {s} ended with {c:?} {st:?}")),
                },
                Ok(None) => {
                    let p = std::fs::read(format!("{dir}/prog{s}")).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
                    if p != w.last {
                        w.last = p;
                        w.at = Instant::now();
                    } else if w.at.elapsed() > Duration::from_secs(240) {
                        err = Some(format!("worker {s} made no progress after case {p}"));
                    }
                }
                Err(e) => err = Some(e.to_string()),
            }
        }
    }
    for w in &mut ws {
        if let Some(c) = &mut w.ch {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    // collect statistics
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if name.starts_with("stat") {
            if let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(e.path()).unwrap_or_default()) {
                for (k, x) in v["counts"].as_object().unwrap() {
                    *counts.entry(k.clone()).or_default() += x.as_u64().unwrap();
                }
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            }
        } else if name.starts_with("hash") {
            for c in std::fs::read(e.path()).unwrap_or_default().chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let mut code = 0;
    let mut viol = 0;
    let mut shrunk = json!(null);
    if let Some(r) = found {
        viol = 1;
        code = 1;
        eprintln!("[{prop}] case {} fails: {}: {}", r.index, r.kind, r.msg);
        let (b, tries) = shrink(r, &dir, if thorough { 240 } else { 60 });
        eprintln!("[{prop}] minimal after {tries} candidates: {}: {}", b.kind, b.msg);
        shrunk = json!({"kind": b.kind, "message": b.msg, "candidates_tried": tries});
        let mut v = serde_json::to_value(&b).unwrap();
        v["engine"] = json!("m");
        v["how_to_replay"] = json!("./replay.sh <this file>");
        if let Some(p) = std::path::Path::new(replay).parent() {
            let _ = std::fs::create_dir_all(p);
        }
        std::fs::write(replay, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("VIOLATION property={prop} replay={replay}");
    }
    let replaced = counts.get("keys_replaced_by_insert").copied().unwrap_or(0);
    if prop == "C22" && replaced > 0 && std::env::var("MH_KNOWN").unwrap_or_default().contains("insert-replaces-key") {
        println!("KNOWN-FINDING: property=C22 HashMap::insert over an equal but distinguishable key stored the new key object ({replaced} times)");
    }
    if let Some(e) = &err {
        eprintln!("[{prop}] error: {e}");
        code = 2;
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": counts.get("cases").copied().unwrap_or(0),
            "distinct_nontrivial": distinct.len(),
            "rule": format!("{}; {}", generated(&prop), rule(&prop)),
            "samples": samples,
            "measured": counts,
            "violations_of_other_properties_skipped": foreign,
            "shrunk": shrunk,
            "search_s": search_s,
            "stopped_by_time_limit": timed_out,
            "processes": nsh,
        },
        "assumptions": assumptions(&prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol,
    });
    if let Some(p) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::io::stdout().flush();
    code
}

pub fn main(a: &[String]) {
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("check") => {
            let c = check(&a[1..]);
            std::process::exit(c);
        }
        Some("search") => run(&a[1], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("run") => {
            let out = format!("{}.replayed", a[1]);
            let _ = std::fs::remove_file(&out);
            let mut c = Command::new(exe()).args(["search", &a[1], &out, "1", "0"]).spawn().unwrap();
            match wait_timeout(&mut c, Duration::from_secs(120)) {
                Some(10) => {
                    let r: Report = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
                    let _ = std::fs::remove_file(&out);
                    println!("reproduced: {}: {}", r.kind, r.msg);
                    std::process::exit(1);
                }
                Some(0) => println!("did not fail"),
                c => {
                    println!("replay ended with {c:?}");
                    std::process::exit(2);
                }
            }
        }
        Some("show") => {
            let mut r = Rng::new(0);
            let i: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(r.u64());
            let seed = std::env::var("SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let case = gen_any(&a[1], seed, i);
            println!("{}", serde_json::to_string_pretty(&case).unwrap());
        }
        _ => {
            eprintln!("usage: mharness check|worker|run|search|show ...");
            std::process::exit(2);
        }
    }
}
