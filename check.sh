#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's working tree and run one check.
# check.sh build: build only.
cd "$(dirname "$0")" || exit 2
here=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p replays evidence
log=$here/replays/build.log

build() { # extra cargo arguments
    # never trust timestamps: what comes from /repo and what depends on it is always compiled again
    rm -rf "$here"/sim/target/release/.fingerprint/infrared-* "$here"/sim/target/release/.fingerprint/irsim-*
    (cd sim && CARGO_TARGET_DIR="$here/sim/target" cargo build --release --offline "$@") >"$log" 2>&1
}

extreme=ok
if ! build; then
    # Tick counts are computed at compile time: a library that cannot do so at an unusual rate breaks
    # the build of exactly those rates.
    cp "$log" "$here/replays/extreme-rates-build.log"
    if ! grep -q "E0080" "$log" || ! build --no-default-features; then
        cat "$log" >&2
        echo "HARNESS ERROR: the simulator does not build against /repo" >&2
        exit 2
    fi
    extreme=broken
fi
[ "$id" = build ] && exit 0

if [ $extreme = broken ] && { [ "$id" = C02 ] || [ "$id" = C16 ]; }; then
    python3 - "$id" "$tier" "$here" <<'P'
import json, os, sys
id, tier, here = sys.argv[1:]
log = os.path.join(here, "replays", "extreme-rates-build.log")
json.dump({"property": id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
  "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
    "rule": "build of the sender at every tick rate of the simulator, whose pulse tables are computed at compile time",
    "samples": [open(log).read()[-2000:]]},
  "wall_s": 0.0, "violations": 1}, open(os.path.join(here, "evidence", id + ".json"), "w"), indent=1)
P
    echo "the sender cannot be built at a tick rate of the simulator: see the compiler's error"
    grep -m3 -A6 "E0080" "$here/replays/extreme-rates-build.log"
    echo "VIOLATION property=$id replay=$here/replays/extreme-rates-build.log"
    exit 1
fi
[ "$id" = C18 ] && exec python3 tools/features.py check "$tier" "$here"
exec sim/target/release/irsim check --prop "$id" --tier "$tier" --out "$here"
