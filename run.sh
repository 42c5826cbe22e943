#!/bin/bash
# debugging aid: run harnesses by regex and show only problems
build=/verif/build
(cd /verif/gocv && GOFLAGS=-mod=mod GOPROXY=off go build -o $build/gocv ./cmd/gocv) || exit 2
$build/gocv "${FLAGS[@]}" $F run "$@" 2>$build/run.log
echo "--- slowest:"; grep -h 'wall=' $build/run.log | sed 's/.*\(wall=[0-9.]*\).*/&/' | sort -t= -k5 -n -r | awk '{print}' | sort -k5 -t= -rn | head -${TOP:-6}
grep -m1 -A12 'fatal error\|^panic' $build/run.log | cut -c1-200
true
