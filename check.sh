#!/bin/bash
# Usage: check.sh <property> [glmmon options]. Builds the monitor against /repo's working tree and
# runs the property's workload. Exit: 0 held, 1 violation, 2 no verdict.
cd "$(dirname "$0")" || exit 2
DIR=$PWD
P=$1; shift
export CARGO_NET_OFFLINE=true OPENBLAS_NUM_THREADS=1 RUST_BACKTRACE=0
LOG=$DIR/work/build-$P.log
mkdir -p "$DIR/work" "$DIR/evidence" "$DIR/replays"
if ! (cd harness && cargo build --release --offline >"$LOG" 2>&1); then
    # A model that can't be shared between threads breaks C23, the other checks can do without.
    if grep -qE "cannot be (shared|sent) between threads safely" "$LOG" &&
        (cd harness && cargo build --release --offline --no-default-features >"$LOG.2" 2>&1); then
        if [ "$P" = C23 ]; then
            R=$DIR/replays/C23-not-sync.txt
            { echo "A Model can not be shared between threads:"; grep -A12 -E "cannot be (shared|sent)" "$LOG"; } >"$R"
            echo "VIOLATION property=C23 replay=$R"
            exit 1
        fi
    else
        tail -40 "$LOG"
        echo "ERROR: the monitor does not build against /repo"
        exit 2
    fi
fi
# the library prints solver warnings to stderr
exec ./harness/target/release/glmmon "$P" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --dir "$DIR" "$@" 2>"$DIR/work/stderr-$P.log"
