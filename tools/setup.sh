#!/bin/sh
# nothing to fetch or build: the framework is Python run by python3-vt; this only checks that the tools are there
set -e
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
command -v clang-18 >/dev/null || command -v clang >/dev/null
command -v gcc >/dev/null
mkdir -p evidence
