#!/bin/bash
# builds the framework; the R checks need only clang, llvm-link, opt and python3
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; sys.path.insert(0, "lib"); import rprops'
for t in clang-16 llvm-link opt; do command -v $t >/dev/null || command -v $t-18 >/dev/null || { echo "missing $t"; exit 1; }; done
if [ -d rsdump ]; then bash rsdump/build.sh; fi
