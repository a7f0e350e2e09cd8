#!/bin/bash
# check.sh Cxx [quick|thorough]: build the simulator and the code under test from /repo's working tree, then run one check.
# check.sh build: only build.   check.sh replay FILE: run one recorded execution again.
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET VOLARIS_KEY RUST_BACKTRACE
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
build() {
    mkdir -p sim/target
    exec 9>sim/target/.checklock
    flock 9
    # cargo looks at times of files; go by their content
    local sum; sum=$( (cd /repo && find crates -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$sum" != "$(cat sim/target/.stamp 2>/dev/null)" ]; then
        rm -f "$here/sim/target/.stamp"
        [ -d sim/target/release ] && (cd sim && cargo clean --offline --release -p volaris-crypto -p volaris-tools -p volaris-cli-sim -p drive >/dev/null 2>&1)
        (cd sim && cargo build --offline --release --locked) >sim/target/build.log 2>&1 || { tail -60 sim/target/build.log >&2; echo "check.sh: the build failed" >&2; exit 3; }
        echo "$sum" >sim/target/.stamp
    fi
    exec 9>&-
}
case "$1" in
build) build ;;
replay) build; exec sim/target/release/volsim replay "$2" ;;
C[0-9][0-9])
    tier="${2:-${VERIF_TIER:-quick}}"
    build
    exec sim/target/release/volsim check "$1" --tier "$tier" --evidence "evidence/$1.json" --replays replays ;;
*) echo "usage: check.sh Cxx [quick|thorough] | build | replay FILE" >&2; exit 2 ;;
esac
