#!/bin/bash
# build.sh [crate...]: (re)build the checkers of mc/ from /repo's working tree, offline
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/mc/target" CARGO_NET_OFFLINE=true
[ $# -gt 0 ] || set -- v1 ra v2 common
for c in "$@"; do
  case $c in
    v1) src="/repo/contracts/marketplace"; pk="sg-marketplace";;
    ra) src="/repo/contracts/reserve-auction"; pk="stargaze-reserve-auction";;
    v2) src="/repo/contracts/stargaze-marketplace-v2 /repo/packages"; pk="stargaze-marketplace-v2 sg-marketplace-common";;
    common) src="/repo/packages"; pk="sg-marketplace-common";;
  esac
  [ -d mc/$c ] || continue
  # cargo decides by time stamps what to rebuild; decide by content, a copied tree may carry any time stamps
  h=$(find $src -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
  stamp=mc/target/.src-$c
  log=mc/target/.log-$c
  mkdir -p mc/target
  if [ "$(cat $stamp 2>/dev/null)" != "$h" ]; then
    for p in $pk; do (cd mc/$c && cargo clean --offline -q -p $p) >/dev/null 2>&1; done
  fi
  if ! (cd mc/$c && cargo build --offline --locked) >$log 2>&1; then
    rm -f "$PWD/$stamp"; tail -40 $log; exit 1
  fi
  echo "$h" > $stamp
done
