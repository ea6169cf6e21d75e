#!/usr/bin/env python3
"""Development tool: build a planted bug from tools/seeds_src.py, confirm it in a scratch copy, keep it under /verif/seeded.
usage: mkseed.py ID...   (scratch copy /tmp/sd/repo is made on first use)"""
import sys, os, subprocess, json, shutil, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + '/tools/seeds_src.py').read(), ns)
SEEDS = ns['SEEDS']
R = '/tmp/sd/repo'
DEMO = '''#!/bin/bash
# run in the repository's root after its build
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || true
cat > "$W/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
minikalman = { path = "$R/crates/minikalman", default-features = false, features = [FEATS] }
DEPS
[workspace]
TOML
CARGO_TARGET_DIR="$W/target" cargo build -q --offline --manifest-path "$W/Cargo.toml"
"$W/target/debug/demo"
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main():
    if not os.path.isdir(R):
        os.makedirs('/tmp/sd', exist_ok=True)
        sh('cp -a /repo ' + R)
    for sid in sys.argv[1:]:
        s = SEEDS[sid]
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
        d = '%s/seeded/%s' % (H, sid)
        os.makedirs(d, exist_ok=True)
        for f, old, new, *nth in s['edits']:
            p = R + '/crates/minikalman/src/' + f
            t = open(p).read()
            k = s.get('count', 1)
            assert t.count(old) >= 1, (sid, 'not found', old)
            if nth:
                i = -1
                for _ in range(nth[0]):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
                open(p, 'w').write(t)
                continue
            if t.count(old) != 1 and 'nth' not in s:
                print(sid, 'AMBIGUOUS', t.count(old)); return
            if 'nth' in s:
                i = -1
                for _ in range(s['nth']):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
        feats = s.get('feats', 'std,fixed,alloc,unsafe,nalgebra')
        open(d + '/demo.sh', 'w').write(DEMO.replace('FEATS', ', '.join('"%s"' % f for f in feats.split(','))).replace('DEPS', s.get('deps', '')))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd=R)
        bad = r.returncode
        ok = sh('bash %s/demo.sh' % d, cwd='/repo')
        if not bad or ok.returncode:
            print(sid, 'DEMO patched rc=%d clean rc=%d' % (bad, ok.returncode), (ok.stderr + ok.stdout)[-1500:] if ok.returncode else r.stdout[-300:]); 
            continue
        if 'error' in r.stderr and 'could not compile' in r.stderr:
            print(sid, 'DOES NOT COMPILE', r.stderr[-1500:]); continue
        if '--notest' in sys.argv: print(sid,'demo ok'); continue
        sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/sd/build.sh; sed 's#cd /repo#cd %s#g' /opt/vp/test.sh > /tmp/sd/test.sh" % (R, R))
        b = sh('bash /tmp/sd/build.sh')
        if b.returncode:
            print(sid, 'BUILD FAILS', b.stderr[-1500:]); continue
        sh('bash /tmp/sd/test.sh /tmp/sd/out.json')
        o = json.load(open('/tmp/sd/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = base.get('stable') or base.get('passed') or base
        p = set(o['passed'])
        miss = [x for x in want if x not in p]
        print(sid, 'KEPT' if not miss else 'TESTS FAIL %s' % miss[:5])
        if miss:
            shutil.rmtree(d)
    sh('git checkout -q -- .', cwd=R)

main()
