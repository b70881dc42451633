# Sourced: build.sh <crate> <hook> <checked|plain>; sets BIN. Builds offline, in /verif/target-<crate>[-<hook>], from
# /repo's working tree. The hook (hooks, cover, line, random or sets) is what crate intchk looks into.
# checked: /repo's crate with debug assertions and overflow checks, as its tests have it; plain: without,
# as a release build has it (everything else is the same); sched: checked, and calling back at every basic block of
# /repo's crate (for the overlapping calls of C25), in a target directory of its own.
crate=$1
part=${2:-hooks}
flavour=${3:-checked}
VERIF=${VERIF:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$VERIF/target-$crate
[ "$part" = hooks ] || CARGO_TARGET_DIR=$VERIF/target-$crate-$part
[ "$flavour" = sched ] && CARGO_TARGET_DIR=$VERIF/target-sched RUSTC_WRAPPER=$VERIF/harness/rustc-sched.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
if [ "$crate" = intchk ]; then export RUSTFLAGS="--cfg vp_$part"; fi
mkdir -p "$CARGO_TARGET_DIR" "$VERIF/out"
# cargo judges freshness by time stamps; a tree may come with older ones. Rebuild the crate under test
# whenever its content differs from what was built last.
sum=$(cd /repo && find src resources Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp=$CARGO_TARGET_DIR/vp-source-sum
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$stamp"
  cargo clean --manifest-path "$VERIF/harness/$crate/Cargo.toml" --release -p puzzle-utils -p "$crate" --offline >/dev/null 2>&1
fi
flags=()
[ "$flavour" = plain ] && flags=(--config profile.release.package.puzzle-utils.debug-assertions=false --config profile.release.package.puzzle-utils.overflow-checks=false)
cargo build --manifest-path "$VERIF/harness/$crate/Cargo.toml" --release --offline --quiet "${flags[@]}" 2>"$VERIF/out/build-$crate-$part-$flavour.log" \
  || { grep -E -A6 '^error' "$VERIF/out/build-$crate-$part-$flavour.log" | head -40; tail -3 "$VERIF/out/build-$crate-$part-$flavour.log"; return 1; }
echo "$sum" > "$stamp"
BIN=$CARGO_TARGET_DIR/release/$crate-$flavour
cmp -s "$CARGO_TARGET_DIR/release/$crate" "$BIN" || { rm -f "$BIN"; cp "$CARGO_TARGET_DIR/release/$crate" "$BIN"; }
return 0
