#!/bin/bash
# Builds the program and the library harness once, offline, so that the checks start warm.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
set -e
cd "${PICA_REPO:-/repo}"
cargo build -p pica-cli --features performant,compat,unstable --offline
[ -x "$here/harness/build.sh" ] && bash "$here/harness/build.sh"
mkdir -p "$here/.work" "$here/evidence"
exit 0
