#!/bin/bash
# Builds the verifier from the committed files.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/tools/buildgovc.sh"
test -x "$GOVC"
