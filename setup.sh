#!/bin/bash
# Checks build everything themselves; this only verifies that the tools exist.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo --version && python3 --version && node --version
