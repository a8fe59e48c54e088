#!/bin/bash
# check.sh <property>: proves the property's obligations from /repo's current tree.
V=$(dirname "$(realpath "$0")")
. /opt/vp/env.sh
if [ ! -x "$V/bin/gcv" ] || [ -n "$(find "$V/gcv" -newer "$V/bin/gcv" -name '*.go' -print -quit)" ]; then
  bash "$V/setup.sh" || exit 3
fi
exec "$V/bin/gcv" -check "$1" -verif "$V" -contracts "$V/contracts" -repo /repo
