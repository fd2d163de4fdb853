#!/usr/bin/env python3
"""Builds the extractor and the harness once, so that the checks start warm (they also build on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
build_vx()
expand_repo()
for f in "pts": expand_shapes(f)
expand_kws()
expand_quotes()
expand_derive()
print(bounds_harness('C24', 1, 'quick', 40, print).get('violation') or 'bounds')
for more in ([], ["--features", "bulk"], ["--features", "quote"]):
    r = sh(["cargo", "build", "--manifest-path", os.path.join(V, "cex", "Cargo.toml"), "--offline", "--quiet", *more], env=env(CARGO_TARGET_DIR=os.path.join(B, "cex-target")))
    print("ready" if r.returncode == 0 else r.stderr[-2000:])
