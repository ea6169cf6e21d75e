#!/bin/bash
# builds the falsifiers' dependencies once (every check rebuilds what depends on /repo)
H=$(cd "$(dirname "$0")" && pwd)
cd "$H/fz" && cargo build --offline --features C01,base >/dev/null 2>&1
cargo build --offline --features C14,base,nalgebra >/dev/null 2>&1
cd "$H/fl" && for f in std libm micromath; do cargo build --offline --features $f --target-dir ../build/fl-$f >/dev/null 2>&1; done
verus --version >/dev/null && echo ready
