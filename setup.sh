#!/bin/bash
# nothing is built ahead of a check; only makes sure the tools are there
set -e
cd "$(dirname "$0")"
clang++-18 --version >/dev/null 2>&1 || clang++ --version >/dev/null
protoc --version >/dev/null
python3 -m compileall -q sa
mkdir -p evidence
