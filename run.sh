#!/bin/bash
# run.sh ID quick|thorough   builds the simulator from /repo's working tree and runs one check
# run.sh build               builds only
# run.sh replay FILE         replays a recorded violation
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target"
unset RUSTFLAGS
cd "$here/sim" || exit 2
# Never trust time stamps: a changed tree is rebuilt even when its files look old.
tree=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/built-from 2>/dev/null)" != "$tree" ]; then
  find target/release/.fingerprint -maxdepth 1 -type d \( -name 'sieve-rs-*' -o -name 'sieve-sim-*' \) -exec rm -rf {} + 2>/dev/null
  mkdir -p target
fi
if ! cargo build --release --offline >target/build.log 2>&1; then
  grep -E '^error' -A12 target/build.log | head -60
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
echo "$tree" >target/built-from
case "$1" in
  build) exit 0 ;;
  replay) exec target/release/sieve-sim replay "$2" ;;
  *) exec target/release/sieve-sim check "$1" "${2:-quick}" "$here" ;;
esac
