#!/bin/bash
# check.sh setup: builds everything.  check.sh <property> [quick|thorough]: rebuilds the harness against /repo's working tree and
# runs one property's check.  Exit 0 held, 1 violation, anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_ROOT="$PWD" VERIF_TIER="$tier"
export CARGO_TARGET_DIR="$PWD/harness/target"
# cargo judges by modification times; judge by content as well
now=$(find /repo/src /repo/Cargo.toml harness/src harness/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp="$CARGO_TARGET_DIR/content"
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
  [ -d "$CARGO_TARGET_DIR/debug" ] && (cd harness && cargo clean --offline --locked -p mqtt-protocol-core -p vharness) >/dev/null 2>&1
  mkdir -p "$CARGO_TARGET_DIR" && echo "$now" >"$stamp"
fi
build() { # <features>
  local log rc
  log=$(mktemp)
  (cd harness && cargo build --offline --locked ${1:+--features "$1"}) >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then cat "$log" >&2; echo "BUILD FAILED" >&2; rm -f "$log"; exit 2; fi
  rm -f "$log"
}
if [ "$id" = setup ]; then
  for f in "" sso-lv10 sso-lv20 sso-min-32bit sso-min-64bit; do build "$f"; done
  exit 0
fi
build ""
"$CARGO_TARGET_DIR/debug/vharness" check "$id" --tier "$tier"
rc=$?
# The small-string-optimised representations change the codec's value types: run the codec
# properties on those configurations as well (the rarer three on a tenth of the cases in quick).
case "$id" in
  C02|C03|C04|C13)
    [ "$id" = C13 ] && features="sso-lv10" || features="sso-lv10 sso-lv20 sso-min-32bit sso-min-64bit"
    for f in $features; do
      if [ $rc -ne 0 ] || [ -n "${VERIF_NO_SSO:-}" ]; then break; fi
      scale=1
      [ "$f" != sso-lv10 ] && [ "$tier" != thorough ] && scale=0.1
      build "$f"
      "$CARGO_TARGET_DIR/debug/vharness" check "$id" --tier "$tier" --append --scale "$scale"
      rc=$?
    done ;;
esac
exit $rc
