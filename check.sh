#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && . ./build_mc.sh || exit 2
exec "$MC" check "$1" "${2:-quick}"
