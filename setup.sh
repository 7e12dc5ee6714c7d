#!/bin/bash
# Builds every driver against /repo's current tree (offline).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import mbt, glob, os, re
pk = []
for t in sorted(glob.glob("harness/drivers/*/Cargo.toml")):
    n = re.search(r'^name = "(.*)"', open(t).read(), re.M).group(1)
    if n != "drvlib" and not os.path.exists(os.path.join(os.path.dirname(t), "UNUSED")):
        pk.append(n)
try:
    mbt.build(*pk)
except mbt.ToolError as e:
    # a driver that does not build must not keep the others from being checked
    for p in pk:
        try:
            mbt.build(p)
        except mbt.ToolError as e:
            print("setup:", p, e)
P
