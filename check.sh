#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo's working tree, then run the property's campaign.
root="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp)"
if ! (cd "$root/sim" && cargo build --release --offline --locked) >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"; echo "HARNESS ERROR: the build failed" >&2; exit 2
fi
rm -f "$log"
exec "$root/sim/target/release/textile-sim" check "$id" --tier "$tier" --root "$root"
