#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")"
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3 checks/"$1".py
