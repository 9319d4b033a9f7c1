#!/bin/bash
# Builds the monitors once from the committed files and /repo's tree; the checks rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/scope/env.sh
export CARGO_TARGET_DIR=$here/build/target
python3 "$here/tools/mirror.py" lib && (cd "$here/harness" && cargo build --offline --locked) || exit 1
if [ -d "$here/harness-jwe" ]; then
  python3 "$here/tools/mirror.py" jwe && (cd "$here/harness-jwe" && cargo build --offline --locked) || exit 1
fi
