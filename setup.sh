#!/bin/bash
# Builds the verifier from /verif/gcv (offline; x/tools comes from the module cache).
set -e
cd "$(dirname "$(realpath "$0")")"
. /opt/vp/env.sh
mkdir -p bin evidence
cd gcv
go build -buildvcs=false -o ../bin/gcv .
