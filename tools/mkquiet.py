#!/usr/bin/env python3
"""Development tool: mkquiet.py OUTDIR [ID...]: patches from tools/quiet_src.py (checked to compile and pass the tests unless --notest)"""
import sys, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + '/tools/quiet_src.py').read(), ns)
Q = ns['Q']
R = '/tmp/sq/repo'
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.isdir(R):
    os.makedirs('/tmp/sq'); sh('cp -a /repo ' + R)
for i in [a for a in sys.argv[2:] if a[0] != '-'] or Q:
    checks, edits = Q[i]
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
    ok = True
    for f, a, b in edits:
        p = R + '/crates/minikalman/src/' + f
        t = open(p).read()
        n = t.count(a)
        if n == 0: print(i, 'NOT FOUND', f, a[:80]); ok = False; break
        open(p, 'w').write(t.replace(a, b, 1) if n == 1 or True else t)
    if not ok: continue
    open('%s/%s.diff' % (out, i), 'w').write(sh('git diff', cwd=R).stdout)
    if '--notest' in sys.argv: continue
    sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/sq/build.sh; sed 's#cd /repo#cd %s#g' /opt/vp/test.sh > /tmp/sq/test.sh" % (R, R))
    b = sh('bash /tmp/sq/build.sh')
    if b.returncode: print(i, 'BUILD', b.stderr[-1500:]); os.unlink('%s/%s.diff' % (out, i)); continue
    t = sh('bash /tmp/sq/test.sh /tmp/sq/out.json')
    print(i, 'rc', t.returncode, t.stdout[-200:])
