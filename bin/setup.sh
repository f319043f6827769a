#!/bin/bash
# builds both engines once, offline (every check rebuilds what it needs by itself)
set -e
cd "$(dirname "$0")/.."
(cd extract && cargo build --offline --release --quiet)
(cd harness && RUSTFLAGS="--cfg vf_hooks" cargo build --offline --release --quiet)
python3 -c "import json; json.load(open('MANIFEST.json'))"
