# Sourced by the scripts: everything builds offline, from /repo's working tree, under /verif/target
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="--warn=semicolon_in_expressions_from_macros"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0 CARGO_INCREMENTAL=1
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
case ":$PATH:" in *:/root/.cargo/bin:*) ;; *) export PATH="/root/.cargo/bin:$PATH" ;; esac
SIM_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export SIM_ROOT CARGO_TARGET_DIR="$SIM_ROOT/target"
SIM="$CARGO_TARGET_DIR/release/sim"
quiet() { # run a build step; show what it said only when it failed
  local log="$CARGO_TARGET_DIR/build-$$.log"
  mkdir -p "$CARGO_TARGET_DIR"
  if ! "$@" >"$log" 2>&1; then
    grep -vE '^warning' "$log" | tail -60 >&2
    rm -f "$log"
    return 1
  fi
  rm -f "$log"
}
build_sim() { quiet cargo build --offline --release --manifest-path "$SIM_ROOT/sim/Cargo.toml"; }
build_cli() {
  quiet cargo build --offline --manifest-path /repo/Cargo.toml -p fecl --target-dir "$CARGO_TARGET_DIR/cli" &&
    quiet gcc -O1 -Wall -shared -fPIC -o "$CARGO_TARGET_DIR/shim.so" "$SIM_ROOT/sim/shim.c" -ldl
}
# The same simulator with everything, the standard library included, compiled to count the
# control-flow edges it runs
SIM_COUNTING="$CARGO_TARGET_DIR/counting/x86_64-unknown-linux-gnu/release/sim"
build_counting() (
  quiet gcc -O2 -Wall -fno-builtin -c -o "$CARGO_TARGET_DIR/edges.o" "$SIM_ROOT/sim/edges.c" || return 1
  export RUSTC_BOOTSTRAP=1 RUSTFLAGS="$RUSTFLAGS --cfg sim_edges -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Clink-arg=$CARGO_TARGET_DIR/edges.o"
  quiet cargo build --offline --release --manifest-path "$SIM_ROOT/sim/Cargo.toml" \
    --target x86_64-unknown-linux-gnu -Zbuild-std=std,panic_unwind --target-dir "$CARGO_TARGET_DIR/counting"
)
build_for() { # what the property's check runs
  case "$1" in
    C05)
      if build_counting; then
        SIM="$SIM_COUNTING"
      else
        echo "the counting build failed; steps are not counted in this run" >&2
        build_sim
      fi
      ;;
    C10 | C11 | C12) build_sim && build_cli ;;
    *) build_sim ;;
  esac
}
