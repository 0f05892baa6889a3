#!/bin/bash
# run.sh ID [quick|thorough]: decides one property on /repo's current tree.
cd /verif || exit 2
. ./setup.sh >/dev/null || exit 2
exec /verif/bin/symx check "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
