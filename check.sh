#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
[ -x bin/gov ] || ./setup.sh || exit 2
exec bin/gov -repo "${VERIF_REPO_DIR:-/repo}" -verif "$PWD" -tier "${2:-quick}" check "$1"
