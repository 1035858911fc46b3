#!/bin/bash
# builds the SSA dumper; the checks rebuild it themselves when it is missing
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p bin
(cd tools/ssajson && go build -o ../../bin/ssajson .)
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
