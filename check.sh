#!/bin/bash
# check.sh PROPERTY quick|thorough [bvsim options]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/build.sh" || exit 2
exec "$BVSIM_TARGET/debug/bvsim" check "$1" --tier "${2:-quick}" "${@:3}"
