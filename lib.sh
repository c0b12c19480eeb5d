# Build steps, used by check.sh, replay.sh and setup.sh. V is /verif.
export VERIF_DIR=$V CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_BOOTSTRAP
mkdir -p "$V/target" "$V/work" "$V/replays" "$V/evidence"

# cargo goes by modification times; the content decides here.
refresh() {
  local h
  h=$(cd /repo && find Cargo.toml Cargo.lock xsd xsd-derive xsd-internal -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  if [ "$h" != "$(cat "$V/target/.repo_hash" 2>/dev/null)" ]; then
    rm -rf "$V"/target/*/.fingerprint/xsd-* "$V"/target/*/.fingerprint/xsd_* "$V"/target/*/.fingerprint/corpus*
    mkdir -p "$V/target"
    echo "$h" > "$V/target/.repo_hash"
  fi
}

locked() {
  ( flock 9; "$@" ) 9> "$V/target/.build_lock"
}

build_load_() {
  refresh
  cargo build --quiet --offline --manifest-path "$V/sim/load/Cargo.toml" >&2
}
build_load() { locked build_load_; }

# 0: built; 1: the crates of /repo build, but code generated from the corpus does not compile; 2: error
build_code_() {
  refresh
  local m="$V/sim/code/Cargo.toml" l="$V/work/build.log"
  cargo build --quiet --offline --manifest-path "$m" --features streams > "$l" 2>&1 && return 0
  # without streaming into sinks, which uses what the generated code keeps private
  cargo build --quiet --offline --manifest-path "$m" > "$l" 2>&1 && { echo "note: built without streams" >&2; return 0; }
  cargo build --quiet --offline --manifest-path "$m" -p xsd -p xsd-internal -p xsd-derive -p simcore >&2 || return 2
  tail -n 40 "$l" >&2
  grep -q 'could not compile `corpus' "$l" && return 1
  return 2
}
build_code() { locked build_code_; }

# the macro's simulator: the compiler is run on it with a library in front of its system calls
build_macro_() {
  refresh
  gcc -O1 -shared -fPIC -o "$V/work/macro-shim.so.new" "$V/sim/macro/shim.c" -ldl >&2 || return 2
  mv "$V/work/macro-shim.so.new" "$V/work/macro-shim.so"
  cargo build --offline --manifest-path "$V/sim/macro/Cargo.toml" --message-format=json-render-diagnostics > "$V/work/macro-build.json.new" 2> "$V/work/macro-build.log" || { tail -n 30 "$V/work/macro-build.log" >&2; return 2; }
  mv "$V/work/macro-build.json.new" "$V/work/macro-build.json"
}
build_macro() { locked build_macro_; }
