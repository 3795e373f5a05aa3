#!/bin/bash
# Nothing to install: every check builds what it needs. This only shows that the toolchain is there.
cd "$(dirname "$0")" && mkdir -p build evidence replays && clang++ --version >/dev/null && python3 --version >/dev/null && echo ok
