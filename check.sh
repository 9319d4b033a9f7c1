#!/bin/bash
# check.sh <property> [quick|thorough]: mirror /repo's working tree, build the monitor against it, run one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
. /opt/vp/scope/env.sh 2>/dev/null
export CARGO_TARGET_DIR=$here/build/target CARGO_NET_OFFLINE=true
mkdir -p "$here/build"
exec 9>"$here/build/.lock"; flock 9
case $prop in
  C18) crate=harness-jwe bin=monitor-jwe mirror=jwe ;;
  *)   crate=harness     bin=monitor     mirror=lib ;;
esac
log=$here/build/$crate.log
if ! python3 "$here/tools/mirror.py" $mirror >"$log" 2>&1 ||
   ! (cd "$here/$crate" && cargo build --offline --locked >>"$log" 2>&1); then
  tail -40 "$log"; echo "INCONCLUSIVE property=$prop the monitor does not build against /repo"; exit 2
fi
flock -u 9
# Memory running away is a denial of service in C21; the limit turns it into an abort of the monitor alone.
[ "$prop" = C21 ] && ulimit -v 16000000
ulimit -c 0
err=$here/build/$prop.stderr
"$here/build/target/debug/$bin" --property "$prop" --tier "$tier" --seed "$VERIF_SEED" --root "$here" 2>"$err"
rc=$?
tail -c 20000 "$err" >&2
case $rc in
  132|134|136|139) # illegal instruction, abort, arithmetic trap, segmentation fault: the code under test took the process down
    mkdir -p "$here/replays"; replay=$here/replays/$prop-crash.txt
    { echo "property $prop, tier $tier, seed $VERIF_SEED: the process ended with status $rc (a signal)"
      echo "replay: VERIF_SEED=$VERIF_SEED $here/check.sh $prop $tier"; tail -c 20000 "$err"; } >"$replay"
    echo "VIOLATION property=$prop replay=$replay"; exit 1 ;;
esac
exit $rc
