import sys, os, argparse
sys.path.insert(0, os.path.dirname(__file__))
import extract, specs
H = os.path.dirname(os.path.abspath(__file__))
FE = {'std', 'fixed', 'alloc', 'unsafe', 'nalgebra'}
def generate(src='/repo/crates/minikalman/src', feats=FE, stubs=(), mods=None, theorems=None, probe=False, base=None):
    sp = specs.Spec(H + '/spec')
    x = extract.Extractor(src, feats, sp, stubs, probe=probe, base=base)
    if theorems is None:
        theorems = open(H + '/theorems.rs').read() if os.path.exists(H + '/theorems.rs') else ''
    mf = (lambda m: any(m[:len(k)] == k for k in mods)) if mods else None
    return x, x.emit(open(H + '/prelude.rs').read(), theorems, mf)
if __name__ == '__main__':
    a = argparse.ArgumentParser(); a.add_argument('--mods', default=''); a.add_argument('--out', default='/tmp/g.rs'); a.add_argument('--stub', default='')
    a.add_argument('--noth', action='store_true')
    a = a.parse_args()
    mods = [tuple(m.split('::')) for m in a.mods.split(',')] if a.mods else None
    x, s = generate(mods=mods, stubs=a.stub.split(',') if a.stub else (), theorems='' if a.noth else None)
    open(a.out, 'w').write(s)
    for n in x.notes: print('NOTE', n)
    unused = set(x.spec.fns) - x.spec.used
    if unused and not mods: print('UNUSED SPECS', sorted(unused))
