"""development helper: v.py [mods] [--fn substr]: generate, verify, print errors compactly"""
import sys, subprocess, json, re, os
sys.path.insert(0,'/verif/vx')
import gen, argparse
a=argparse.ArgumentParser(); a.add_argument('mods',nargs='?',default=''); a.add_argument('--th',action='store_true'); a.add_argument('--out',default='/tmp/g.rs'); a.add_argument('--rlimit',default='400')
a.add_argument('--full',type=int,default=0); a.add_argument('--max',type=int,default=30); a.add_argument('--noassert',action='store_true'); a.add_argument('--verify-fn',default=''); a.add_argument('--stub',default=''); a.add_argument('--x',default='')
a=a.parse_args()
mods=[tuple(m.split('::')) for m in a.mods.split(',')] if a.mods else None
fe=set(gen.FE)|({'no_assert'} if a.noassert else set())
x,s=gen.generate(base=json.load(open('/verif/vx/base.json'))['fns'],mods=mods,theorems=None if a.th else '',feats=fe,stubs=a.stub.split(',') if a.stub else ())
open(a.out,'w').write(s)
for n in x.notes: print('NOTE',n)
print('inlined',x.inlined)
if not mods:
    u=set(x.spec.fns)-x.spec.used
    if u: print('UNUSED',sorted(u))
cmd=['verus',a.out,'--crate-type','lib','--triggers-mode','silent','--multiple-errors','5','--rlimit',a.rlimit,'--error-format=json']+a.x.split()
p=subprocess.run(cmd,capture_output=True,text=True)
lines=s.split('\n'); n=0
def fnat(l):
    for f in x.fns:
        if f.first<=l<=f.last: return f.key
    return ''
for l in p.stderr.split('\n')+p.stdout.split('\n'):
    if l.startswith('{'):
        try: d=json.loads(l)
        except: continue
        if d.get('level')!='error' or not d.get('spans'): 
            if d.get('level')=='error' : print('!!',d['message'][:300])
            continue
        n+=1
        if n>a.max: continue
        if a.full: print(d['rendered'][:a.full]); continue
        sp=[z for z in d['spans']]
        print('* %s [%s]'%(d['message'][:200],fnat(sp[0]['line_start'])))
        for z in sp[:3]:
            print('     %d: %s   %s'%(z['line_start'],(z['text'][0]['text'].strip() if z['text'] else '')[:150],z.get('label') or ''))
    elif l.startswith('verification') : print(l)
print('errors',n)
