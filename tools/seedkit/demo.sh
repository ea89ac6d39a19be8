#!/bin/bash
# Compiles the repository's crate in a scratch directory with demo.rs as one
# more unit test module and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
mkdir "$S/r" && cp -a Cargo.toml Cargo.lock sorock tests tools "$S/r/" || exit 2
cd "$S/r" || exit 2
cat "$here/kit.rs" "$here/demo.rs" > sorock/src/process/raft_process/vdemo.rs
printf '\n#[cfg(test)]\nmod vdemo;\n' >> sorock/src/process/raft_process/mod.rs
[ -f "$here/extra.sh" ] && . "$here/extra.sh"
CARGO_TARGET_DIR="$S/t" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_TEST_DEBUG=0 \
  timeout 280 cargo test --offline -p sorock --lib vdemo -- --test-threads=1 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
