#!/bin/bash
# bash /verif/run.sh ID quick|thorough        decide one property on /repo's current working tree
# bash /verif/run.sh ID replay FILE           re-run one recorded case
# bash /verif/run.sh build                    only build
# exit 0: held on everything explored; 1: violation; 2: the checker could not be built; 3: the checker is broken
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="$here"
export CARGO_TARGET_DIR="$here/mc/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# cargo trusts modification times; content decides here, so that a change is never missed
stamp=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/mc" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" != "$stamp" ] || [ ! -x "$CARGO_TARGET_DIR/release/mc" ]; then
    rm -f "$CARGO_TARGET_DIR/.stamp"
    (cd "$here/mc" && cargo clean -q --release --offline -p material-color-utilities-rs -p mc >/dev/null 2>&1
     cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1)
    if [ $? -ne 0 ]; then
        grep -E "^error" -A8 "$CARGO_TARGET_DIR/build.log" | head -60 >&2
        echo "cannot build the checker against /repo" >&2
        exit 2
    fi
    echo "$stamp" >"$CARGO_TARGET_DIR/.stamp"
fi
flock -u 9
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" "$@" 9>&-
