#!/bin/bash
# Nothing is kept between runs: only check that the tools the checks use are here.
set -e
cd "$(dirname "$0")/.."
command -v cargo >/dev/null
cargo kani --version
test -f /opt/vp/ws/Cargo.lock
python3 -m py_compile bin/vrun.py
rm -rf -- "$PWD/.work" "$PWD/bin/__pycache__"
