#!/bin/bash
# Nothing is kept between runs: every check builds what it needs. This only verifies that the tools are there.
cd "$(dirname "$(readlink -f "$0")")"
set -e
gcc --version | head -1; g++ --version | head -1; clang --version | head -1
python3-vt -c 'import hypothesis, sys; print("hypothesis", hypothesis.__version__)'
t=$(mktemp -d); g++ -O1 -shared -fPIC -pthread -std=c++17 -o "$t/m.so" model/model.cpp; rm -r "$t"
