#!/bin/bash
# development helper: v.sh <mods> -> generate and verify
cd /verif/vx; python3 gen.py --mods "$1" ${2:---noth} && verus /tmp/g.rs --crate-type lib --triggers-mode silent --multiple-errors 5 --rlimit 100 2>&1
