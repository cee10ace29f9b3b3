#!/bin/bash
# Runs the repository's own unit tests inside the full view (the whole crate on the shim): validates the shim, and
# shows that a change to the protocols and entities keeps them passing. Not a check. SYN_REPO selects another tree.
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
W="${1:-/tmp/repo-tests}"; mkdir -p "$W"
SYN_WORK="$W" VERIF_DIR="$VERIF" python3 "$VERIF/gen/views.py" full || exit 3
cat >> "$W/full/Cargo.toml" <<EOF

[dev-dependencies]
manul = { path = "$VERIF/manul-shim", features = ["dev"] }
impls = "1"
hex = { version = "0.4", default-features = false, features = ["alloc"] }
rand = { version = "0.8", features = ["getrandom"] }
serde_assert = "0.8"
test-log = { version = "0.2.16", default-features = false, features = ["trace", "color"] }
EOF
[ -e "$W/tests.lock" ] && cp "$W/tests.lock" "$W/full/Cargo.lock"
cd "$W/full" && CARGO_TARGET_DIR="$W/target" cargo test --offline --lib --features k256,bip32,dev; rc=$?
cp Cargo.lock "$W/tests.lock"
exit $rc
