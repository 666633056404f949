#!/bin/bash
# check.sh PROPERTY [engine flags]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
[ -x build/engine ] || bash ./setup.sh >&2 || exit 2
id="$1"; shift
exec ./build/engine -property "$id" "$@"
