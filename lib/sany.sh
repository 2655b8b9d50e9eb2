#!/bin/sh
# syntax-check every module
cd "$(dirname "$0")/../spec" || exit 2
for m in *.tla; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m 2>&1 | grep -iE 'error|abort|multiple|unknown|exception|line [0-9]' | sed "s/^/$m: /"; done
