#!/bin/bash
# replay.sh FILE: re-run one recorded execution against /repo's current tree, with a log of every step
cd "$(dirname "$0")" && . ./build_mc.sh || exit 2
exec "$MC" replay "$1"
