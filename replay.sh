#!/bin/bash
# replay.sh ID FILE: runs one counterexample against the real code in /repo.
cd /verif || exit 2
. ./setup.sh >/dev/null || exit 2
exec /verif/bin/symx replay "$1" "$2"
