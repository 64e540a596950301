#!/bin/bash
# check.sh ID            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh --replay ID FILE   run one saved case
# check.sh --build       build only
# Exit: 0 held, 1 violated (VIOLATION line), anything else: the check itself failed.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VP_DIR=$PWD
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
for v in $(compgen -e | grep '^CARGO_PROFILE_'); do unset "$v"; done

build() {
  local t=harness/target sum
  mkdir -p "$t"
  exec 9>"$t/vp-lock"
  flock 9
  # cargo goes by modification times; a tree whose content changed is rebuilt whatever its times say.
  sum=$(cd /repo && { find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum)
  if [ "$sum" != "$(cat "$t/vp-sum" 2>/dev/null)" ]; then
    rm -f "$t/vp-sum"
    (cd harness && cargo clean --offline -p rawdio >/dev/null 2>&1; cargo clean --offline --target-dir target/plain -p rawdio >/dev/null 2>&1)
  fi
  # With the hooks if they build; a tree whose internals have other names is checked through its public side.
  if (cd harness && RUSTFLAGS="--cfg rawdio_verif" cargo build --offline --quiet --target-dir target >target/vp-build.log 2>&1); then
    ln -sf debug/vp "$t/vp"
  elif (cd harness && cargo build --offline --quiet --target-dir target/plain >target/vp-build.log 2>&1); then
    ln -sf plain/debug/vp "$t/vp"
  else
    cat harness/target/vp-build.log >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
  fi
  echo "$sum" > "$t/vp-sum"
  flock -u 9
  exec 9>&-
}

build
case "$1" in
  --build) exit 0 ;;
  --replay) exec ./harness/target/vp replay "$2" "$3" ;;
  *) exec ./harness/target/vp check "$1" ;;
esac
