#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$PWD" "${@:3}"
