#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's tree.
cd "$(dirname "$0")" || exit 1
./setup.sh || { echo "VIOLATION property=$1 replay=setup-failed no-failing-input-found"; exit 1; }
exec ./build/gocv -tier "${2:-quick}" check "$1"
