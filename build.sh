# sourced by check.sh and setup.sh: build one variant of the checker against /repo's working tree
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/replays"
tree_hash() {
  ( cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum )
}
build_variant() { # main|sched|term
  local dir="$ROOT/target/$1" pkg="$ROOT/mc" extra=()
  case "$1" in
    sched) extra=(--features sched); local -x RUSTC_WRAPPER="$ROOT/sched-rustc.sh" ;;
    term) pkg="$ROOT/mc-term" ;;
  esac
  mkdir -p "$dir"
  (
    flock 9
    # cargo looks at time stamps only: rebuild the library whenever its content differs
    now=$(tree_hash)
    if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$now" ]; then
      rm -f "$dir/stamp"
      [ -d "$dir/release" ] && CARGO_TARGET_DIR="$dir" cargo clean --offline --release --manifest-path "$pkg/Cargo.toml" -p weedle >/dev/null 2>&1
    fi
    CARGO_TARGET_DIR="$dir" cargo build --release --offline --locked --manifest-path "$pkg/Cargo.toml" "${extra[@]}" >"$dir.log" 2>&1 || exit 1
    echo "$now" >"$dir/stamp"
  ) 9>"$ROOT/target/$1.lock"
}
