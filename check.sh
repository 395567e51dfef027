#!/bin/bash
# Usage: check.sh PROPERTY [engine flags]   (tier from VERIF_TIER)
# Builds the engine if needed and decides one property for the code in /repo.
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
bash ./setup.sh >&2 || exit 2
prop=$1; shift
exec ./bin/vfengine check -verif "$PWD" -repo "${VF_REPO:-/repo}" -prop "$prop" "$@"
