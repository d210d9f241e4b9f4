#!/bin/bash
# builds the verifier from the committed files
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p bin evidence
cd gov && go build -o ../bin/gov .
