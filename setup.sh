#!/bin/bash
# builds the checker once so that the checks only have to rebuild what changed
cd "$(dirname "$0")" && . ./build_mc.sh || exit 2
"$MC" list | wc -l
