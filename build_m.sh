#!/bin/bash
# Builds the schedule-testing engine against /repo's working tree; prints the binary path.
set -e
cd "$(dirname "$0")/mharness"
T="${VERIF_TARGET:-/verif/target}"
mkdir -p "$T"
# The repository's toolchain predates the stable AtomicPtr::fetch_or, so there papaya uses its own polyfill.
# The nightly that can instrument std has the inherent method; hide it so that the same code is tested.
if [ ! -e "$T/rust-src2/ok" ]; then
  SRC="$(rustc +nightly --print sysroot)/lib/rustlib/src/rust"
  TMP="$T/rust-src2.$$"
  mkdir -p "$TMP"
  cp -a "$SRC/library" "$TMP/"
  sed -i 's/pub fn fetch_or(&self, val: usize, order: Ordering) -> \*mut T/pub fn fetch_or_tag(\&self, val: usize, order: Ordering) -> *mut T/' "$TMP/library/core/src/sync/atomic.rs"
  sed -i 's/self\.state\.fetch_or(LOCKED, Acquire)\.addr()/self.state.fetch_or_tag(LOCKED, Acquire).addr()/' "$TMP/library/std/src/sys/sync/rwlock/queue.rs"
  touch "$TMP/ok"
  # weak compare-exchanges fail spuriously when the runtime says so, as they may on other hardware
  python3 - "$TMP/library/core/src/sync/atomic.rs" <<'P'
import re, sys
p = sys.argv[1]
s = open(p).read()
i = s.index("const unsafe fn atomic_compare_exchange_weak<")
j = s.index("{\n", i) + 2
s = s[:j] + """    if intrinsics::const_eval_select!(
        @capture { } -> bool:
        if const { false } else {
            unsafe extern "C" { fn mh_cas_weak() -> i32; }
            // SAFETY: the function has no preconditions.
            unsafe { mh_cas_weak() != 0 }
        }
    ) {
        // SAFETY: as below
        return Err(unsafe { atomic_load::<T, false>(dst, failure) });
    }
""" + s[j:]
i = s.rindex("#[inline]", 0, i)
s = s[:i] + "#[rustc_allow_const_fn_unstable(const_eval_select)]\n" + s[i:]
open(p, "w").write(s)
P
  mv -T "$TMP" "$T/rust-src2" 2>/dev/null || rm -rf "$TMP"
fi
export __CARGO_TESTS_ONLY_SRC_ROOT="$T/rust-src2/library"
export CARGO_TARGET_DIR="$T/m"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt --cap-lints=warn -Cllvm-args=-tsan-instrument-func-entry-exit=0 --check-cfg=cfg(papaya_stress)"
cargo +nightly build --offline --release --target x86_64-unknown-linux-gnu -Zbuild-std >"$T/m.log" 2>&1 || { cat "$T/m.log" >&2; exit 2; }
echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/mharness"
