#!/bin/bash
# Checks that the offline toolchain and crates are there. Nothing else is needed: every check builds
# the harness together with /repo's current tree itself (7-30 s from cold).
cd "$(dirname "$0")" && mkdir -p build evidence replays && export PATH="/root/.cargo/bin:$PATH" && cargo --version
