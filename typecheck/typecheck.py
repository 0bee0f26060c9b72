#!/usr/bin/env python3
"""Generates programs against papaya's public API and compares the compiler's verdict with what is sound.

usage: typecheck.py check <C20|C23> <quick|thorough> <seed> <evidence> <replay>
       typecheck.py run <replay file>
"""
import itertools, json, os, random, subprocess, sys, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get("VERIF_TARGET", "/verif/target") + "/t"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get("TC_TOOLCHAIN", "1.90.0"), CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cap-lints=warn", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV.pop("CARGO_BUILD_TARGET", None)

PRELUDE = r'''#![allow(dead_code, unused, clippy::all)]
use papaya::*;
use std::cell::Cell;
use std::marker::PhantomData as Ph;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use std::collections::hash_map::DefaultHasher;
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn send_val<T: Send>(_: &T) {}
fn sync_val<T: Sync>(_: &T) {}
fn use_it<T>(_: T) {}
fn black<T>(t: T) -> T { t }
macro_rules! marker { ($n:ident, $t:ty) => {
    pub struct $n(pub Ph<$t>);
    impl $n { fn mk() -> $n { $n(Ph) } }
    impl Hash for $n { fn hash<H: Hasher>(&self, _: &mut H) {} }
    impl PartialEq for $n { fn eq(&self, _: &$n) -> bool { true } }
    impl Eq for $n {}
    impl Clone for $n { fn clone(&self) -> $n { $n(Ph) } }
    impl Default for $n { fn default() -> $n { $n(Ph) } }
    impl BuildHasher for $n { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::new() } }
} }
marker!(SY, u8);
marker!(SO, Cell<u8>);
marker!(YO, std::sync::MutexGuard<'static, u8>);
marker!(NO, *const u8);
'''
# type expression -> (Send, Sync)
MARK = {"SY": (1, 1), "SO": (1, 0), "YO": (0, 1), "NO": (0, 0)}
GUARDS = {"LocalGuard<'static>": (0, 0), "OwnedGuard<'static>": (1, 1)}


def rand_type(r, depth=2):
    """A random type with its (Send, Sync), by the standard library's documented rules."""
    if depth == 0 or r.random() < 0.25:
        t = r.choice(['SY', 'SY', 'SY', 'SO', 'YO', 'SY', 'SY', 'NO', 'SY'])
        return t, MARK[t]
    k = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 7, 8, 9, 10, 11, 11])
    a, (s, y) = rand_type(r, depth - 1)
    if k == 0: return f"Vec<{a}>", (s, y)
    if k == 1: return f"Option<{a}>", (s, y)
    if k == 2: return f"Box<{a}>", (s, y)
    if k == 3: return f"Arc<{a}>", (s & y, s & y)
    if k == 4: return f"Rc<{a}>", (0, 0)
    if k == 5: return f"Cell<{a}>", (s, 0)
    if k == 6: return f"Mutex<{a}>", (s, s)
    if k == 7: return f"RwLock<{a}>", (s, s & y)
    if k == 8: return f"&'static {a}", (y, y)
    if k == 9: return f"[{a}; 2]", (s, y)
    if k == 10: return f"*const {a}", (0, 0)
    b, (s2, y2) = rand_type(r, depth - 1)
    return f"({a}, {b})", (s & s2, y & y2)


class Prog:
    def __init__(self, fam, body, expect, sig="()", why="", codes=None, items=""):
        self.fam, self.body, self.expect, self.sig, self.why, self.items = fam, body, expect, sig, why, items
        self.codes = codes  # error codes that count as the rejection asked for

    def src(self, name):
        return f"{self.items}\nfn {name}{self.sig} {{\n{self.body}\n}}\n"


TRAIT = ["E0277"]
BORROW = ["E0505", "E0597", "E0502", "E0499", "E0515", "E0716", "E0506", "E0521", "E0621", "E0310", "E0308", "E0594", "E0596", "E0495", "E0623", "E0700", "E0312", "E0373", "E0507", "lifetime"]


def both(fam, ty, send, sync, out, why):
    for tr, want in (("send", send), ("sync", sync)):
        if want is None:
            continue
        out.append(Prog(fam, f"    {tr}::<{ty}>();", "accept" if want else "reject", why=f"{ty}: {tr.capitalize()} {why}", codes=TRAIT))


def tri(needed, sufficient):
    """needed: without it the impl is unsound; sufficient: with it the impl is expected."""
    return 0 if not needed else (1 if sufficient else None)


def grid_for(out, K, V, S, G, T, fam):
    (kt, (ks, ky)), (vt, (vs, vy)), (st, (ss, sy)) = K, V, S
    mapsync = ks & ky & vs & vy & sy
    setsync = ks & ky & sy
    w = "for these key, value, hasher and guard types"
    both(fam + "/HashMap", f"HashMap<{kt}, {vt}, {st}>", ks & vs & ss, mapsync, out, w)
    both(fam + "/HashSet", f"HashSet<{kt}, {st}>", ks & ss, setsync, out, w)
    both(fam + "/HashMapBuilder", f"HashMapBuilder<{kt}, {vt}, {st}>", tri(ss, ks & vs & ss), tri(sy, ks & ky & vs & vy & ss & sy), out, w)
    both(fam + "/HashSetBuilder", f"HashSetBuilder<{kt}, {st}>", tri(ss, ks & ss), tri(sy, ks & ky & ss & sy), out, w)
    tt, (ts, ty) = T
    both(fam + "/OccupiedError", f"OccupiedError<'static, {vt}>", vs & vy, vy, out, w)
    both(fam + "/Operation", f"Operation<{vt}, {tt}>", vs & ts, vy & ty, out, w)
    both(fam + "/Compute", f"Compute<'static, {kt}, {vt}, {tt}>", ky & vy & ts, ky & vy & ty, out, w)
    for gt, (gs, gy) in G:
        both(fam + "/HashMapRef", f"HashMapRef<'static, {kt}, {vt}, {st}, {gt}>", mapsync & gs, mapsync & gy, out, w)
        both(fam + "/HashSetRef", f"HashSetRef<'static, {kt}, {st}, {gt}>", setsync & gs, setsync & gy, out, w)
        both(fam + "/Iter", f"Iter<'static, {kt}, {vt}, {gt}>", ky & vy & gy, ky & vy & gy, out, w)
        # keys() never hands out a value and values() never hands out a key
        both(fam + "/Keys", f"Keys<'static, {kt}, {vt}, {gt}>", tri(ky & gy, ky & vy & gy), tri(ky & gy, ky & vy & gy), out, w)
        both(fam + "/Values", f"Values<'static, {kt}, {vt}, {gt}>", tri(vy & gy, ky & vy & gy), tri(vy & gy, ky & vy & gy), out, w)


def dedup(progs):
    seen, out = set(), []
    for p in progs:
        k = (p.sig, p.body, p.items)
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out


def c20(seed, thorough):
    out = []
    G = list(GUARDS.items())
    M = list(MARK.items())
    for K, V, S in itertools.product(M, M, M):
        grid_for(out, K, V, S, G, M[(M.index(K) + M.index(S)) % 4], "grid")
    for K, V, T in itertools.product(M, M, M):
        both("grid/Compute", f"Compute<'static, {K[0]}, {V[0]}, {T[0]}>", K[1][1] & V[1][1] & T[1][0], K[1][1] & V[1][1] & T[1][1], out, "")
    r = random.Random(seed)
    for _ in range(3000 if thorough else 300):
        grid_for(out, rand_type(r), rand_type(r), rand_type(r), [r.choice(G)], rand_type(r), "random")
    # whole programs that move things between threads
    for (kt, (ks, ky)), (vt, (vs, vy)) in itertools.product(M, M):
        share = ks & ky & vs & vy
        def prog(fam, body, ok, why):
            out.append(Prog("thread/" + fam, body, "accept" if ok else "reject", why=why, codes=TRAIT))
        m = f"let m: HashMap<{kt}, {vt}> = HashMap::new();"
        prog("share-map", f"{m}\nstd::thread::scope(|s| {{ s.spawn(|| {{ m.pin().insert({kt}::mk(), {vt}::mk()); }}); }});", share, "inserting from another thread through a shared map")
        prog("share-map-arc", f"{m}\nlet m = Arc::new(m);\nstd::thread::spawn(move || {{ m.pin().clear(); }});", share, "clearing from another thread through an Arc")
        prog("share-map-len", f"{m}\nstd::thread::scope(|s| {{ s.spawn(|| {{ m.len(); }}); }});", share, "sharing a map")
        prog("move-map", f"{m}\nstd::thread::spawn(move || {{ drop(m); }});", ks & vs, "moving a map to another thread")
        prog("owned-guard", f"{m}\nlet g = m.owned_guard();\nm.pin().clear();\nstd::thread::scope(|s| {{ s.spawn(move || {{ drop(g); }}); }});", ks & vs, "an owned guard released on another thread drops keys and values there")
        prog("owned-guard-flush", f"{m}\nlet g = m.owned_guard();\nm.pin().clear();\nstd::thread::scope(|s| {{ s.spawn(|| {{ g.flush(); }}); }});", ks & vs, "an owned guard flushed on another thread drops keys and values there")
        prog("pin-owned", f"{m}\nlet p = m.pin_owned();\nstd::thread::scope(|s| {{ s.spawn(move || {{ p.clear(); }}); }});", share, "an owned pinned map used on another thread")
        prog("pin-owned-ref", f"{m}\nlet p = m.pin_owned();\nstd::thread::scope(|s| {{ s.spawn(|| {{ p.len(); }}); }});", share, "an owned pinned map shared with another thread")
        prog("iter-owned", f"{m}\nlet g = m.pin();\nlet it = g.iter();\nstd::thread::scope(|s| {{ s.spawn(move || {{ for _ in it {{}} }}); }});", 0, "an iterator with a local guard used on another thread")
        prog("pin-local", f"{m}\nlet p = m.pin();\nstd::thread::scope(|s| {{ s.spawn(move || {{ p.len(); }}); }});", 0, "a local pin used on another thread")
        prog("guard-local", f"{m}\nlet g = m.guard();\nstd::thread::scope(|s| {{ s.spawn(move || {{ drop(g); }}); }});", 0, "a local guard released on another thread")
        prog("guard-local-ref", f"{m}\nlet g = m.guard();\nstd::thread::scope(|s| {{ s.spawn(|| {{ use_it(&g); }}); }});", 0, "a local guard used on another thread")
        prog("future-owned", f"{m}\nfn need<F: Send>(_: F) {{}}\nneed(async move {{ let p = m.pin_owned(); std::future::ready(()).await; for _ in p.iter() {{ std::future::ready(()).await; }} }});", share, "an owned pin held across await in a Send future")
        prog("future-local", f"{m}\nfn need<F: Send>(_: F) {{}}\nneed(async move {{ let p = m.pin(); std::future::ready(()).await; p.len(); }});", 0, "a local pin held across await in a Send future")
        if vt == "SY":
            s = f"let m: HashSet<{kt}> = HashSet::new();"
            prog("set-share", f"{s}\nstd::thread::scope(|s| {{ s.spawn(|| {{ m.pin().insert({kt}::mk()); }}); }});", ks & ky, "inserting from another thread through a shared set")
            prog("set-move", f"{s}\nstd::thread::spawn(move || {{ drop(m); }});", ks, "moving a set to another thread")
            prog("set-owned-guard", f"{s}\nlet g = m.owned_guard();\nm.pin().clear();\nstd::thread::scope(|s| {{ s.spawn(move || {{ drop(g); }}); }});", ks, "an owned guard released on another thread drops keys there")
            prog("set-pin-owned", f"{s}\nlet p = m.pin_owned();\nstd::thread::scope(|s| {{ s.spawn(move || {{ p.clear(); }}); }});", ks & ky, "an owned pinned set used on another thread")
            prog("set-pin-local", f"{s}\nlet p = m.pin();\nstd::thread::scope(|s| {{ s.spawn(move || {{ p.len(); }}); }});", 0, "a local pin used on another thread")
            prog("set-iter-send", f"{s}\nlet g = m.pin_owned();\nlet it = g.iter();\nsend_val(&it); sync_val(&it);", ks & ky if not ks else ky, "a set iterator sent to another thread") if ks else None
            prog("set-iter-local", f"{s}\nlet g = m.pin();\nlet it = g.iter();\nsend_val(&it);", 0, "a set iterator with a local guard sent to another thread")
    return dedup(out)


# ---------------------------------------------------------------- C23: lifetimes
MAPREF = [  # (name, expression using {m} map, {g} guard) that evaluates to something holding a reference
    ("get", "{m}.get(&1{g})", 1), ("get_key_value", "{m}.get_key_value(&1{g})", 1), ("insert", "{m}.insert(1, v(){g})", 1),
    ("try_insert", "{m}.try_insert(1, v(){g})", 1), ("try_insert_with", "{m}.try_insert_with(1, || v(){g})", 1),
    ("get_or_insert", "{m}.get_or_insert(1, v(){g})", 1), ("get_or_insert_with", "{m}.get_or_insert_with(1, || v(){g})", 1),
    ("update", "{m}.update(1, |_| v(){g})", 1), ("update_or_insert", "{m}.update_or_insert(1, |_| v(), v(){g})", 1),
    ("update_or_insert_with", "{m}.update_or_insert_with(1, |_| v(), || v(){g})", 1),
    ("compute", "{m}.compute(1, |e| match e {{ Some(_) => Operation::<_, ()>::Remove, None => Operation::Insert(v()) }}{g})", 1),
    ("remove", "{m}.remove(&1{g})", 1), ("remove_entry", "{m}.remove_entry(&1{g})", 1),
    ("remove_if", "{m}.remove_if(&1, |_, _| true{g})", 1),
    ("iter", "{m}.iter({h})", 1), ("keys", "{m}.keys({h})", 1), ("values", "{m}.values({h})", 1),
    ("iter-item", "{m}.iter({h}).next()", 1), ("keys-item", "{m}.keys({h}).next()", 1), ("values-item", "{m}.values({h}).next()", 1),
]
SETREF = [("get", "{m}.get(&1{g})", 1), ("iter", "{m}.iter({h})", 1), ("iter-item", "{m}.iter({h}).next()", 1)]
NOREF = [  # results that hold no reference: using them after the guard is fine
    ("contains_key", "{m}.contains_key(&1{g})"), ("len", "{m}.len()"), ("is_empty", "{m}.is_empty()"), ("cloned", "{m}.get(&1{g}).cloned()"),
]


def c23(seed, thorough):
    out = []
    items = "fn v() -> String { String::new() }" # emitted once, see PRELUDE2
    vals = [("String", "v()")]
    def acc(fam, body, why, sig="()"):
        out.append(Prog(fam, body, "accept", sig=sig, why=why))
    def rej(fam, body, why, sig="()"):
        out.append(Prog(fam, body, "reject", sig=sig, why=why, codes=BORROW))
    for kind, table in (("map", MAPREF), ("set", SETREF)):
        T = "HashMap<u32, String>" if kind == "map" else "HashSet<u32>"
        new = "HashMap" if kind == "map" else "HashSet"
        for name, ex, _ in table:
            for gk in ("guard", "owned_guard"):
                f = f"{kind}.{name}/{gk}"
                e = ex.format(m="m", g=", &g", h="&g")
                mk = f"let m: {T} = {new}::new();\nlet mut g = m.{gk}();"
                rej(f, f"{mk}\nlet r = {e};\ndrop(g);\nuse_it(r);", "a result used after its guard was released")
                acc(f, f"{mk}\nlet r = {e};\nuse_it(r);\ndrop(g);", "a result used while its guard is held")
                rej(f, f"{mk}\nlet r = {e};\ng.refresh();\nuse_it(r);", "a result used after its guard was refreshed")
                acc(f, f"{mk}\nuse_it({e});\ng.refresh();\nlet r = {e};\nuse_it(r);", "a result used before its guard is refreshed")
                rej(f, f"let m: {T} = {new}::new();\nlet r;\n{{ let g = m.{gk}(); r = {e}; }}\nuse_it(r);", "a result that leaves its guard's scope")
                rej(f, f"let m: {T} = {new}::new();\nlet r;\nlet g;\n{{ let m2 = m; g = m2.{gk}(); r = {ex.format(m='m2', g=', &g', h='&g')}; }}\nuse_it(r);", "a result that outlives its map")
                rej(f, f"{mk}\nlet r = {e};\ndrop(m);\nuse_it(r);", "a result used after its map was dropped")
                rej(f, f"{mk}\nlet r = {e};\nlet m3 = m;\nuse_it(r);", "a result used after its map was moved")
                rej(f, f"{mk}\nlet r = {e};\nlet x: Box<dyn std::any::Any> = Box::new(r);", "a result treated as 'static")
                # the result is tied to the guard, not to the reference to the map
                acc(f, f"let m: {T} = {new}::new();\nlet g = m.{gk}();\nlet r = {{ let mm = &m; {ex.format(m='mm', g=', &g', h='&g')} }};\nuse_it(r);", "a result kept after a short borrow of its map")
                # helper functions as user code writes them
                short = "m.{}(&1, g)" if name in ("get", "get_key_value", "remove", "remove_entry") else None
                if kind == "map" and name in ("get", "remove"):
                    acc(f, "m.%s(&1, g)" % name, "a helper that returns a reference tied to the guard", sig="<'g, G: Guard>(m: &HashMap<u32, String>, g: &'g G) -> Option<&'g String>")
                    rej(f, "m.%s(&1, g)" % name, "a helper that ties a reference to the map rather than to the guard", sig="<'m, 'g, G: Guard>(m: &'m HashMap<u32, String>, g: &'g G) -> Option<&'m String>")
                    rej(f, "m.%s(&1, g)" % name, "a helper that returns a 'static reference", sig="<'g, G: Guard>(m: &'static HashMap<u32, String>, g: &'g G) -> Option<&'static String>")
            for pk in ("pin", "pin_owned"):
                f = f"{kind}.{name}/{pk}"
                e = ex.format(m="p", g="", h="")
                mk = f"let m: {T} = {new}::new();\nlet mut p = m.{pk}();"
                rej(f, f"{mk}\nlet r = {e};\ndrop(p);\nuse_it(r);", "a result used after its pin was released")
                acc(f, f"{mk}\nlet r = {e};\nuse_it(r);\ndrop(p);", "a result used while its pin is held")
                rej(f, f"{mk}\nlet r = {e};\ndrop(m);\nuse_it(r);", "a result used after its map was dropped")
                rej(f, f"let m: {T} = {new}::new();\nlet r;\n{{ let p = m.{pk}(); r = {e}; }}\nuse_it(r);", "a result that leaves its pin's scope")
                rej(f, f"let m: {T} = {new}::new();\nlet r = {ex.format(m=f'm.{pk}()', g='', h='')};\nuse_it(r);", "a result of a temporary pin")
                acc(f, f"let m: {T} = {new}::new();\nuse_it({ex.format(m=f'm.{pk}()', g='', h='')});", "a result of a temporary pin used at once")
                rej(f, f"{mk}\nlet r = {e};\nlet q = p;\nuse_it(r);", "a result used after its pin was moved")
        for gk in ("guard", "owned_guard", "pin", "pin_owned"):
            f = f"{kind}.{gk}"
            rej(f, f"let m: {T} = {new}::new();\nlet g = m.{gk}();\ndrop(m);\nuse_it(g);", "a guard used after its map was dropped")
            acc(f, f"let m: {T} = {new}::new();\nlet g = m.{gk}();\nuse_it(g);\ndrop(m);", "a guard used before its map is dropped")
            rej(f, f"let g = {{ let m: {T} = {new}::new(); m.{gk}() }};\nuse_it(g);", "a guard that outlives its map")
            rej(f, f"let mut m: {T} = {new}::new();\nlet g = m.{gk}();\nm = {new}::new();\nuse_it(g);", "a guard used after its map was replaced")
            rej(f, f"let mut m: {T} = {new}::new();\nlet g = m.{gk}();\nlet x = &mut m;\nuse_it(g);\nuse_it(x);", "a guard held while its map is borrowed mutably")
        for pk in ("pin", "pin_owned"):
            acc(f"{kind}.{pk}", f"let m: {T} = {new}::new();\nlet r = {{ let p = m.{pk}(); p.{kind}() }};\nuse_it(r);", "the map behind a pin outlives the pin")
            rej(f"{kind}.{pk}", f"let m: {T} = {new}::new();\nlet r = {{ let p = m.{pk}(); p.{kind}() }};\ndrop(m);\nuse_it(r);", "the map behind a pin used after it was dropped")
            for op, what in (("iter", "iter"), ("into_iter", "into_iter")):
                rej(f"{kind}.{pk}", f"let m: {T} = {new}::new();\nlet p = m.{pk}();\nlet it = (&p).{op}();\ndrop(p);\nuse_it(it);", "an iterator used after its pin was released")
    for name, ex in NOREF:
        e = ex.format(m="m", g=", &g")
        acc(f"map.{name}", f"let m: HashMap<u32, String> = HashMap::new();\nlet g = m.guard();\nlet r = {e};\ndrop(g);\nuse_it(r);", "a result that holds no reference used after the guard")
    # compute hands out references that live as long as the guard
    for gk in ("guard", "owned_guard"):
        mk = f"let m: HashMap<u32, String> = HashMap::new();\nlet g = m.{gk}();\nlet mut out: Option<&String> = None;"
        rej(f"compute-closure/{gk}", f"{mk}\nm.compute(1, |e| {{ out = e.map(|x| x.1); Operation::<String, ()>::Abort(()) }}, &g);\ndrop(g);\nuse_it(out);", "a reference given to a compute closure used after the guard")
        for op, ex in (("update", "m.update(1, |x| { c.set(Some(x)); v() }, &g)"), ("update_or_insert", "m.update_or_insert(1, |x| { c.set(Some(x)); v() }, v(), &g)"),
                       ("retain", "m.retain(|_, x| { c.set(Some(x)); true }, &g)"), ("remove_if", "m.remove_if(&1, |_, x| { c.set(Some(x)); true }, &g)")):
            rej(f"{op}-closure/{gk}", f"let m: HashMap<u32, String> = HashMap::new();\nlet g = m.{gk}();\nlet c: Cell<Option<&String>> = Cell::new(None);\nuse_it({ex});\ndrop(g);\nuse_it(c.get());", f"a reference given to a {op} closure used after the guard")
    # values and keys may borrow: the map must not outlive them, nor change their lifetime
    for kind, ins in (("map value", ("HashMap<u32, &str>", "m.pin().insert(1, &s)")), ("map key", ("HashMap<&str, u32>", "m.pin().insert(&s, 1)")), ("set", ("HashSet<&str>", "m.pin().insert(&s)")),
                      ("map get_or_insert", ("HashMap<u32, &str>", "m.pin().get_or_insert(1, &s)")), ("map try_insert", ("HashMap<u32, &str>", "m.pin().try_insert(1, &s)")),
                      ("map compute", ("HashMap<u32, &str>", "m.pin().compute(1, |_| Operation::<&str, ()>::Insert(&s))")),
                      ("map extend", ("HashMap<u32, &str>", "(&m).extend([(1, &*s)])")), ("set extend", ("HashSet<&str>", "(&m).extend([&*s])"))):
        T, ex = ins
        new = T.split("<")[0]
        rej("borrowed/" + kind, f"let mut m: {T} = {new}::new();\n{{ let s = String::new(); use_it({ex}); }}\nuse_it(m.pin().len());", "a map that outlives data it borrows")
        acc("borrowed/" + kind, f"let s = String::new();\nlet mut m: {T} = {new}::new();\nuse_it({ex});\nuse_it(m.pin().len());", "a map of borrowed data")
        rej("borrowed/" + kind, f"let mut m: {T} = {new}::new();\nlet s = String::new();\nuse_it({ex});\ndrop(s);\nuse_it(m.len());", "a map used after the data it borrows was dropped")
    for ty in ("HashMap<u32, &'{} str>", "HashMap<&'{} str, u32>", "HashSet<&'{} str>"):
        rej("variance", "x", "a shared map of longer-lived data used where shorter-lived data can be inserted", sig=f"<'a>(x: &'a {ty.format('static')}) -> &'a {ty.format('a')}")
        rej("variance", "x", "a shared map of shorter-lived data used as one of longer-lived data", sig=f"<'a>(x: &'a {ty.format('a')}) -> &'a {ty.format('static')}")
        acc("variance", "x", "the same map", sig=f"<'a>(x: &'a {ty.format('static')}) -> &'a {ty.format('static')}")
    for ty in ("HashMapRef<'a, u32, &'{} str, RandomState, OwnedGuard<'a>>", "HashMapRef<'a, &'{} str, u32, RandomState, OwnedGuard<'a>>", "HashSetRef<'a, &'{} str, RandomState, OwnedGuard<'a>>"):
        rej("variance", "x", "a pinned map of longer-lived data used where shorter-lived data can be inserted", sig=f"<'a>(x: &'a {ty.format('static')}) -> &'a {ty.format('a')}")
    # shared access only
    mk = "let m: HashMap<u32, String> = HashMap::new();\nlet g = m.guard();"
    for name, ex, _ in MAPREF[:1]:
        rej("mutate", f"{mk}\nm.get(&1, &g).unwrap().push('x');", "a value mutated through a shared reference")
        rej("mutate", f"{mk}\nlet r: &mut String = m.get(&1, &g).unwrap();", "a value borrowed mutably")
        rej("mutate", f"{mk}\nfor (_, x) in m.iter(&g) {{ x.push('x'); }}", "a value mutated through an iterator")
        rej("mutate", f"{mk}\nm.retain(|_, x| {{ x.push('x'); true }}, &g);", "a value mutated in retain")
        rej("mutate", f"{mk}\nlet s: String = *m.get(&1, &g).unwrap();", "a value moved out of the map")
        rej("mutate", f"{mk}\nlet s: String = *m.remove(&1, &g).unwrap();", "a removed value moved out of the map")
        rej("mutate", f"{mk}\nlet s: &mut String = m.remove(&1, &g).unwrap();", "a removed value borrowed mutably")
    # random programs: a few results under one guard, released at some point, used at some points
    r = random.Random(seed)
    for _ in range(20000 if thorough else 1500):
        gk = r.choice(["guard", "owned_guard"])
        body = ["let m: HashMap<u32, String> = HashMap::new();"]
        ok = True
        # state per guard: index -> released?; results: (guard, epoch)
        guards, results = {}, []
        epoch = {}
        for _ in range(r.randrange(3, 10)):
            c = r.randrange(6)
            if c == 0 or not guards:
                i = len(guards)
                body.append(f"let mut g{i} = m.{r.choice(['guard', 'owned_guard'])}();")
                guards[i] = 1
                epoch[i] = 0
            elif c in (1, 2):
                live = [i for i in guards if guards[i]]
                if live:
                    i = r.choice(live)
                    n, ex, _ = r.choice(MAPREF)
                    body.append(f"let r{len(results)} = {ex.format(m='m', g=f', &g{i}', h=f'&g{i}')};")
                    results.append((i, epoch[i], n))
            elif c == 3:
                live = [i for i in guards if guards[i]]
                if live:
                    i = r.choice(live)
                    if r.random() < .5:
                        body.append(f"g{i}.refresh();")
                    else:
                        body.append(f"drop(g{i});")
                        guards[i] = 0
                    epoch[i] += 1
            elif results:
                j = r.randrange(len(results))
                body.append(f"use_it(&r{j});")
                if results[j][1] != epoch[results[j][0]]:
                    ok = False
        if results and r.random() < .5:
            j = r.randrange(len(results))
            body.append(f"use_it(&r{j});")
            ok = ok and results[j][1] == epoch[results[j][0]]
        # iterators need no drop glue: an unused result is fine
        (acc if ok else rej)("random", "\n".join(body), "results used " + ("only while their guard is held" if ok else "after their guard was released"))
    return dedup(out)


PRELUDE2 = "fn v() -> String { String::new() }\n"


def build():
    log = os.path.join(os.path.dirname(TARGET), "t.log")
    os.makedirs(os.path.dirname(TARGET), exist_ok=True)
    p = subprocess.run(["cargo", "rustc", "--offline", "--lib"], cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(log, "w").write(p.stdout)
    if p.returncode:
        sys.stderr.write(p.stdout)
        sys.exit(2)
    deps = os.path.join(TARGET, "debug", "deps")
    # the freshest one: earlier builds leave others behind
    rl = max(glob.glob(os.path.join(deps, "libpapaya-*.rlib")), key=os.path.getmtime)
    return deps, rl


def compile_progs(progs, deps, rlib, work, tag):
    """Returns for every program the list of (code, message) of the errors in it."""
    src, where, line = PRELUDE + PRELUDE2, [], 0
    line = src.count("\n")
    parts = [src]
    for i, p in enumerate(progs):
        s = p.src(f"p{i}")
        n = s.count("\n")
        where += [i] * n
        parts.append(s)
    base = line
    f = os.path.join(work, f"{tag}.rs")
    open(f, "w").write("".join(parts))
    p = subprocess.run(["rustc", "--edition=2021", "--crate-type=lib", "--crate-name=probe", "--emit=metadata", "--error-format=json", "--cap-lints=allow", "-o", os.path.join(work, f"{tag}.rmeta"), "-L", f"dependency={deps}", "--extern", f"papaya={rlib}", f],
                       env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    errs = [[] for _ in progs]
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            sys.stderr.write(l + "\n")
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due") or not d["spans"]:
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                print("compiler:", d["message"], file=sys.stderr)
                sys.exit(2)
            continue
        code = (d.get("code") or {}).get("code") or ("lifetime" if "lifetime" in d["message"] else "E0277" if "between threads" in d["message"] else "?")
        sp = [s for s in d["spans"] if s["is_primary"]][0]
        while sp.get("expansion") and not sp["file_name"].endswith(f"{tag}.rs"):
            sp = sp["expansion"]["span"]
        i = sp["line_start"] - 1 - base
        if not sp["file_name"].endswith(f"{tag}.rs") or not 0 <= i < len(where):
            print("compiler:", d.get("rendered"), file=sys.stderr)
            sys.exit(2)
        errs[where[i]].append((code, d["message"]))
    return errs


def judge(p, errs):
    """None: as expected; otherwise a description. Raises for a program that is malformed here."""
    if p.expect == "accept":
        if not errs:
            return None
        return f"rejected although it is sound ({p.why}): {errs[0][0]} {errs[0][1]}"
    if not errs:
        return f"accepted although it is unsound: {p.why}"
    if not any(c in p.codes for c, _ in errs):
        raise ValueError(f"rejected for another reason: {errs[0]}")
    return None


API = {"E0432", "E0433", "E0599", "E0061", "E0107", "E0412", "E0425", "E0405", "E0603", "?"}


def main():
    if sys.argv[1] == "build":
        build()
        return
    if sys.argv[1] == "run":
        d = json.load(open(sys.argv[2]))
        deps, rl = build()
        work = os.path.join(TARGET, "w")
        os.makedirs(work, exist_ok=True)
        p = Prog(d["family"], d["body"], d["expect"], sig=d["sig"], why=d["why"], codes=d["codes"], items=d["items"])
        e = compile_progs([p], deps, rl, work, "replay")[0]
        try:
            v = judge(p, e)
        except ValueError as x:
            print(x)
            sys.exit(2)
        print(p.src("program"))
        print(f"reproduced: {v}" if v else "did not fail")
        sys.exit(1 if v else 0)
    _, _, prop, tier, seed, evidence, replay = sys.argv
    t0 = time.time()
    deps, rl = build()
    work = os.path.join(TARGET, "w" + prop)
    os.makedirs(work, exist_ok=True)
    progs = (c20 if prop == "C20" else c23)(int(seed), tier == "thorough")
    # programs rejected by type checking and by borrow checking are compiled apart: the former can hide the latter
    errs = [None] * len(progs)
    chunks = [list(range(i, min(i + 400, len(progs)))) for i in range(0, len(progs), 400)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for ids, es in zip(chunks, ex.map(lambda c: compile_progs([progs[i] for i in c], deps, rl, work, f"c{c[0]}"), chunks)):
            for i, e in zip(ids, es):
                errs[i] = e
    counts, bad, malformed = {}, [], []
    for i, p in enumerate(progs):
        k = p.fam.split("/")[0] + "/" + p.expect
        counts[k] = counts.get(k, 0) + 1
        try:
            v = judge(p, errs[i])
        except ValueError as x:
            malformed.append((p, str(x)))
            continue
        if v:
            bad.append((p, v))
    if malformed:
        # alone, to see whether the other programs were the reason
        p, x = malformed[0]
        e = compile_progs([p], deps, rl, work, "alone")[0]
        try:
            v = judge(p, e)
            if v:
                bad.append((p, v))
        except ValueError as x:
            print(f"[{prop}] {len(malformed)} programs cannot be judged, e.g.\n{p.src('program')}\n{x}", file=sys.stderr)
            sys.exit(2)
    found = None
    # each finding is confirmed on its own
    for p, v in sorted(bad, key=lambda b: len(b[0].src(""))):
        e = compile_progs([p], deps, rl, work, "alone")[0]
        try:
            v = judge(p, e)
        except ValueError as x:
            print(f"[{prop}] a program cannot be judged:\n{p.src('program')}\n{x}", file=sys.stderr)
            sys.exit(2)
        if v and p.expect == "accept" and e[0][0] in API:
            print(f"[{prop}] the public API changed: {e[0]}\n{p.src('program')}", file=sys.stderr)
            sys.exit(2)
        if v:
            found = (p, v)
            break
    if bad and not found:
        print(f"[{prop}] {len(bad)} verdicts differ between batch and single compilation", file=sys.stderr)
        sys.exit(2)
    if found:
        p, v = found
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        json.dump(dict(property=prop, engine="t", message=v, family=p.fam, body=p.body, expect=p.expect, sig=p.sig, why=p.why, codes=p.codes, items=p.items, how_to_replay="./replay.sh <this file>"), open(replay, "w"), indent=1)
        print(f"[{prop}] {v}\n{p.src('program')}", file=sys.stderr)
        print(f"VIOLATION property={prop} replay={replay}")
    r = random.Random(int(seed))
    rejects = sum(p.expect == "reject" for p in progs)
    ev = dict(property=prop, tier=tier, seed=int(seed), level="exploration", coverage=dict(
        evaluations=len(progs), distinct_nontrivial=len({(p.sig, p.body, p.items) for p in progs if p.expect == "reject" or p.fam.split("/")[0] in ("random", "thread") or prop == "C23"}),
        rule="Each case is a generated program (exhaustive product of API function x guard kind x misuse or of marker types, plus random compositions from the seed) given to the compiler; the oracle says whether accepting it is sound. A case counts if it must be rejected, or is a whole program that must be accepted; distinct by text.",
        samples=[dict(program=p.src("program"), expect=p.expect, why=p.why, verdict=("rejected: " + errs[i][0][0]) if errs[i] else "accepted") for i, p in r.sample(list(enumerate(progs)), 4)],
        measured=counts, must_be_rejected=rejects, must_be_accepted=len(progs) - rejects, disagreements=len(bad)),
        assumptions=["the compiler (rustc %s) is right about trait and borrow rules" % ENV["RUSTUP_TOOLCHAIN"], "the table of what is sound is derived from what each type can do with shared access (see DESIGN.md)"],
        wall_s=round(time.time() - t0, 2), violations=1 if found else 0)
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    json.dump(ev, open(evidence, "w"), indent=1)
    sys.exit(1 if found else 0)


main()
