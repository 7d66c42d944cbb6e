#!/bin/bash
# Builds drjit-core (LLVM backend) from the current directory in a scratch
# directory and runs demo.cpp against it.
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/home"
cmake -S "$D/kit" -B "$W/b" -G Ninja -DREPO="$PWD" -DCMAKE_C_FLAGS=-O0 "-DCMAKE_CXX_FLAGS=-O0 -g0" -DDEMO="$D" > "$W/log" 2>&1 &&
ninja -C "$W/b" demo >> "$W/log" 2>&1 || { tail -30 "$W/log"; exit 99; }
cd "$W"
HOME="$W/home" timeout 100 "$W/b/demo" $DEMO_ARGS
rc=$?
echo "demo: exit code $rc"
exit $rc
