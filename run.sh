#!/bin/bash
# run.sh VIEW PROPERTY            check a property (VERIF_SEED, VERIF_TIER from the environment)
# run.sh VIEW replay FILE         re-run one saved case
# run.sh VIEW build               only build
# VIEW is core or full; see gen/views.py. Exit: 0 held, 1 violation, other: no answer (build error, time limit).
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VERIF" HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${SYN_WORK:-$VERIF/.work}/target-$1" CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
VIEW="$1"; shift
WORK="${SYN_WORK:-$VERIF/.work}"
mkdir -p "$WORK"
(
  flock 9
  python3 "$VERIF/gen/views.py" "$VIEW" || exit 3
  cd "$WORK/$VIEW" && cargo build --offline --bin "$VIEW" --features k256,bip32,dev > "$WORK/build-$VIEW.log" 2>&1 || { grep -E "^error" -A8 "$WORK/build-$VIEW.log" | head -60; echo "BUILD FAILED (no answer)"; exit 3; }
) 9> "$WORK/lock" || exit 3
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/$VIEW" "$@"
