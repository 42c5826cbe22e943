#!/bin/bash
# replay.sh FILE: re-executes a recorded counterexample against /repo.
cd "$(dirname "$0")" || exit 1
./setup.sh && exec ./build/gocv replay "$1"
