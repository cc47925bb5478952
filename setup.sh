#!/bin/bash
# Nothing to compile: type-check every specification module so a broken toolchain shows early.
cd "$(dirname "$0")/spec" || exit 1
for f in *.qnt; do quint typecheck "$f" >/dev/null || { echo "typecheck failed: $f"; exit 1; }; done
mkdir -p ../evidence; echo setup ok
