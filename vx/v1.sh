#!/bin/bash
# v1.sh MODULE FN [verus args]: verify one function
cd /verif/vx; M=$1; F=$2; shift 2
python3 gen.py --noth --mods ${MODS:-prelude,matrix} --out /tmp/g1.rs >/dev/null
verus /tmp/g1.rs --crate-type lib --triggers-mode silent --rlimit ${RL:-100} --verify-only-module $M --verify-function "*$F*" "$@" 2>&1 | tail -${TL:-60}
