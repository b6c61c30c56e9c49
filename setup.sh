#!/bin/bash
# builds the extractor and the concrete harnesses (every check rebuilds what it misses)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
python3 - <<'EOP' || exit 1
import sys; sys.path.insert(0, ".")
import os, check
vx, e = check.build_vx()
if not vx: sys.exit(e)
for h in ("core", "topo", "misc"):
    if os.path.exists("harness/%s/Cargo.toml" % h): check.build_harness(h)
EOP
exit 0
