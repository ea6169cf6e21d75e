#!/bin/bash
# development tool: run checks on a patched copy in a private mount namespace (never touches /repo or /verif)
# usage: onpatch.sh PATCH OUTDIR CHECK...      (PATCH may be /dev/null)
P=$(readlink -f "$1"); O=$2; shift 2
N=/tmp/ns/$$
mkdir -p $N "$O"; O=$(readlink -f "$O")
cp -a /repo $N/repo; mkdir $N/verif; (cd /verif && tar c --exclude=.git --exclude=seeded .) | tar x -C $N/verif
if [ -s "$P" ]; then (cd $N/repo && git apply "$P") || { echo "patch fails" >"$O/apply"; rm -rf $N; exit 2; }; fi
for c in "$@"; do
  unshare -Urm bash -c "mount --bind $N/repo /repo && mount --bind $N/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c; echo rc=\$?" >"$O/$c.log" 2>&1
  cp $N/verif/evidence/$c.json "$O/" 2>/dev/null
done
rm -rf $N
