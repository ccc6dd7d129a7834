#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. Building here only warms the cache.
cd "$(dirname "$0")"
export VERIF_TARGET="$(pwd)/../build/target"
./build.sh --bins > /tmp/verif-setup.log 2>&1 || { tail -50 /tmp/verif-setup.log; exit 1; }
rm -f /tmp/verif-setup.log
echo "setup: driver built"
