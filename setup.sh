#!/bin/bash
# Builds the extractor and the runtime harness; every check builds them again if needed.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline -q)
(cd search && cargo build --offline -q)
(cd kani && cargo kani --only-codegen > /dev/null 2>&1) || true
