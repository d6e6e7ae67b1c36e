#!/bin/bash
# Builds the analysis driver and the dependencies of the crates under analysis
# (everything the repository's own sources are compiled against), and records
# how rustc is invoked on them.  Offline.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd driver && cargo build --offline -q)
python3 analyzer/prepare.py
