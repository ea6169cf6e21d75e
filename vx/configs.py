"""Code that only some builds contain.  Every check verifies the build `std,fixed,alloc,unsafe,nalgebra` with debug assertions; where the
tree has code under a `cfg` the pinned tree does not have, the builds in which that code is there (or is not) are examined too."""
import os, re
from rust import *

CONFIGS = {   # name -> features (debug_assertions is on unless `release__` is there), features for cargo, cargo profile
    'no_assert': ({'std', 'fixed', 'alloc', 'unsafe', 'nalgebra', 'no_assert'}, 'base,no_assert', 'dev'),
    'libm': ({'libm', 'alloc'}, 'floats,minikalman/libm,minikalman/alloc', 'dev'),
    'micromath': ({'micromath', 'alloc'}, 'minikalman/micromath,minikalman/alloc', 'dev'),
    'release': ({'std', 'fixed', 'alloc', 'unsafe', 'nalgebra', 'release__'}, 'base', 'plain'),
}
MAIN = {'std', 'fixed', 'alloc', 'unsafe', 'nalgebra'}


def segments(src):
    """every piece of non-test code under a cfg: (the predicate, the piece)"""
    out = []
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith('.rs') or f == 'test_dummies.rs':
                continue
            try:
                toks = tokenize(open(os.path.join(d, f), encoding='utf-8').read())
            except Exception:
                continue
            rel = os.path.relpath(os.path.join(d, f), src)
            i, n = 0, len(toks)
            while i < n:
                t = toks[i]
                if t.t == 'mod' and i + 1 < n and toks[i + 1].t in ('tests', 'test'):
                    break
                if t.t == '#' and i + 1 < n and toks[i + 1].t == '[':
                    e = match(toks, i + 1)
                    if toks[i + 2].t == 'cfg':
                        pred = toks[i + 4:e - 1]
                        k = e + 1
                        while k < n and toks[k].t == '#':
                            k = match(toks, k + 1) + 1
                        j = k
                        while j < n and toks[j].t not in (';', '{', ',', '}'):
                            j = match(toks, j) if toks[j].t in OPEN else j
                            j += 1
                        j = match(toks, j) if j < n and toks[j].t == '{' else j
                        out.append((rel, pred, flat(toks[k:j + 1])))
                    i = e
                elif t.t == 'cfg' and i + 2 < n and toks[i + 1].t == '!':
                    e = match(toks, i + 2)
                    out.append((rel, toks[i + 3:e], 'cfg!'))
                    i = e
                i += 1
    return [(r, p, s) for r, p, s in out if not any(t.t == 'test' for t in p)]


def key(r, p, s):
    return '%s|%s|%s' % (r, flat(p), s)


def fingerprint(src):
    return sorted(key(*x) for x in segments(src))


def wanted(src, known):
    """configurations for which this tree has code of its own that the pinned tree has not"""
    known, out = list(known), []
    for x in segments(src):
        k = key(*x)
        if k in known:
            known.remove(k)
            continue
        a = eval_cfg(x[1], MAIN)
        for n, (fe, _, _) in CONFIGS.items():
            if eval_cfg(x[1], fe) != a and n not in out:
                out.append(n)
    return out
