#!/bin/bash
# Nothing is kept from setup: every check builds what it needs. This only makes
# sure that the tools work.
cd "$(dirname "$0")" || exit 1
python3 -c 'import checks, run' || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
(cd tools/perturb && go build -o /dev/null .) || exit 1
