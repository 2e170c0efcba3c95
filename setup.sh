#!/bin/bash
# Nothing is kept between runs: every check builds what it needs.  This checks that the tools are there.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
rustc +stable --version
