#!/bin/bash
# Builds the checkers and the decoder program from /repo's current working tree into /verif/target.
set -u
here=$(cd "$(dirname "$0")" && pwd)
target="$here/target"
mkdir -p "$target"
exec 9>"$target/.build-lock"
flock 9
# cargo judges by time stamps; a tree put in place by other means is judged by its content here
sum=$( (cd /repo && find rx509 decoder certs Cargo.toml -path '*/target' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum "$here/mc/Cargo.toml" "$here/mc/build.rs" "$here/mc/faults.c" "$here/sched/Cargo.toml" "$here/sched/rustc-blocks.sh") | sha256sum | cut -d' ' -f1)
if [ "$(cat "$target/.content" 2>/dev/null)" != "$sum" ]; then
    rm -f "$target/.content"
    cargo clean --quiet --offline --release --manifest-path "$here/mc/Cargo.toml" --target-dir "$target" -p rx509 -p mc >/dev/null 2>&1
    cargo clean --quiet --offline --release --manifest-path "$here/sched/Cargo.toml" --target-dir "$target/sched" -p rx509 -p sched >/dev/null 2>&1
    cargo clean --quiet --offline --manifest-path "$here/sched/Cargo.toml" --target-dir "$target/sched" -p rx509 -p sched >/dev/null 2>&1
fi
cargo build --quiet --release --offline --locked --manifest-path "$here/mc/Cargo.toml" --target-dir "$target" 2>"$target/.build-log" || {
    cat "$target/.build-log" >&2
    echo "build failed" >&2
    exit 2
}
# rx509 once more, its basic blocks being scheduling points (S01)
RUSTC_WRAPPER="$here/sched/rustc-blocks.sh" cargo build --quiet --release --offline --locked --manifest-path "$here/sched/Cargo.toml" --target-dir "$target/sched" 2>"$target/.build-log" || {
    cat "$target/.build-log" >&2
    echo "build failed" >&2
    exit 2
}
# and once without optimisation (S01)
cargo build --quiet --offline --locked --no-default-features --manifest-path "$here/sched/Cargo.toml" --target-dir "$target/sched" 2>"$target/.build-log" || {
    cat "$target/.build-log" >&2
    echo "build failed" >&2
    exit 2
}
echo "$sum" >"$target/.content"
