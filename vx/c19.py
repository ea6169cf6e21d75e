"""C19: the element types' reciprocal and square root.
Every impl of MatrixDataType in the source, for every feature set, is cut out with its cfg blocks resolved and
verified against `recip_ok` / `root_ok`.  What those mean for the primitive operation itself (f32::sqrt, libm::sqrtf,
1.0 / x, I16F16::recip, ...) is assumed: the contract proves that each method is that operation on the right argument.
The trait's own default (1 / self) is verified over the field laws, with the rest of the crate.
Violations come with an input: the real methods of every back end are run against wider arithmetic (crate fl)."""
import os, sys, json, re, time, threading
import rust, gen, scope
import check as C

FILE = 'matrix/data_type.rs'
CONFIGS = [('std', {'std', 'alloc', 'fixed'}, 'std'), ('libm', {'libm', 'alloc'}, 'libm'), ('micromath', {'micromath', 'alloc'}, 'micromath'),
           ('all', {'std', 'alloc', 'fixed', 'libm', 'micromath'}, None)]

PRELUDE = '''#![allow(unused_imports, dead_code, non_camel_case_types)]
use vstd::prelude::*;
verus! {
// what the result of an operation may be; the operations themselves are trusted to deliver it
pub uninterp spec fn recip32(x: f32, r: f32) -> bool;
pub uninterp spec fn root32(x: f32, r: f32) -> bool;
pub uninterp spec fn recip64(x: f64, r: f64) -> bool;
pub uninterp spec fn root64(x: f64, r: f64) -> bool;
pub uninterp spec fn recip_16(x: fixed::types::I16F16, r: fixed::types::I16F16) -> bool;
pub uninterp spec fn root_16(x: fixed::types::I16F16, r: fixed::types::I16F16) -> bool;
pub uninterp spec fn recip_32(x: fixed::types::I32F32, r: fixed::types::I32F32) -> bool;
pub uninterp spec fn root_32(x: fixed::types::I32F32, r: fixed::types::I32F32) -> bool;
// an f64 square root taken in f32, which is all micromath offers
pub uninterp spec fn root64_by32(x: f64, r: f64) -> bool;
pub assume_specification[ f32::recip ](x: f32) -> (r: f32) ensures recip32(x, r);
pub assume_specification[ f32::sqrt ](x: f32) -> (r: f32) ensures root32(x, r);
pub assume_specification[ f64::recip ](x: f64) -> (r: f64) ensures recip64(x, r);
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64) ensures root64(x, r);
pub broadcast axiom fn div32_total(a: f32, b: f32) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn div64_total(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn div32(b: f32, r: f32) requires #[trigger] vstd::std_specs::ops::div_ensures::<f32>(1.0f32, b, r) ensures recip32(b, r);
pub broadcast axiom fn div64(b: f64, r: f64) requires #[trigger] vstd::std_specs::ops::div_ensures::<f64>(1.0f64, b, r) ensures recip64(b, r);
pub broadcast group ops { div32_total, div64_total, div32, div64 }
pub mod libm {
  use vstd::prelude::*;
  #[verifier::external_body] pub fn sqrtf(x: f32) -> (r: f32) ensures crate::root32(x, r) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(x: f64) -> (r: f64) ensures crate::root64(x, r) { unimplemented!() }
}
pub mod micromath {
  use vstd::prelude::*;
  pub trait F32Ext: Sized {
    spec fn mrecip(x: Self, r: Self) -> bool;
    spec fn mroot(x: Self, r: Self) -> bool;
    fn recip(self) -> (r: Self) ensures Self::mrecip(self, r);
    fn sqrt(self) -> (r: Self) ensures Self::mroot(self, r);
  }
  impl F32Ext for f32 {
    open spec fn mrecip(x: f32, r: f32) -> bool { crate::recip32(x, r) }
    open spec fn mroot(x: f32, r: f32) -> bool { crate::root32(x, r) }
    #[verifier::external_body] fn recip(self) -> f32 { unimplemented!() }
    #[verifier::external_body] fn sqrt(self) -> f32 { unimplemented!() }
  }
}
pub mod fixed { pub mod types {
  use vstd::prelude::*;
  #[derive(Clone, Copy)] pub struct I16F16 { pub bits: i32 }
  #[derive(Clone, Copy)] pub struct I32F32 { pub bits: i64 }
  impl I16F16 {
    #[verifier::external_body] pub fn recip(self) -> (r: Self) ensures crate::recip_16(self, r) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Self) ensures crate::root_16(self, r) { unimplemented!() }
  }
  impl I32F32 {
    #[verifier::external_body] pub fn recip(self) -> (r: Self) ensures crate::recip_32(self, r) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Self) ensures crate::root_32(self, r) { unimplemented!() }
  }
} }
// casts: the one the source uses is f64 -> f32 -> root -> f64
pub uninterp spec fn narrowed(x: f64) -> f32;
pub uninterp spec fn widened(x: f32) -> f64;
#[verifier::external_body] pub fn to_f32(x: f64) -> (r: f32) ensures r == narrowed(x) { x as f32 }
#[verifier::external_body] pub fn to_f64(x: f32) -> (r: f64) ensures r == widened(x) { x as f64 }
pub broadcast axiom fn root_by32(x: f64, s: f32) requires #[trigger] root32(narrowed(x), s) ensures ROOT64_BY32;
pub trait MatrixDataType: Sized {
  spec fn recip_ok(x: Self, r: Self) -> bool;
  spec fn root_ok(x: Self, r: Self) -> bool;
  fn recip(self) -> (r: Self) ensures Self::recip_ok(self, r);
  fn square_root(self) -> (r: Self) ensures Self::root_ok(self, r);
}
'''
TYPES = {'f32': ('recip32', 'root32'), 'f64': ('recip64', 'root64'), 'fixed::types::I16F16': ('recip_16', 'root_16'), 'fixed::types::I32F32': ('recip_32', 'root_32')}


def resolve(toks, feats):
    """drop what its cfg attribute turns off"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
            a, j, _ = rust.parse_attr(toks, i)
            if toks[j].t == '{':
                e = rust.match(toks, j)
            else:
                e = j
                while e < len(toks) - 1 and toks[e].t != ';':
                    e = rust.match(toks, e) + 1 if toks[e].t in '([{' else e + 1
            if not (a and a[0].t == 'cfg') or rust.eval_cfg(a[2:-1], feats):
                out += resolve(toks[j:e + 1], feats)
            i = e + 1
        else:
            out.append(toks[i]); i += 1
    return out


def casts(toks):
    """x as f32 -> to_f32(x): on one operand (a name, a literal, a call or a parenthesis)"""
    toks = list(toks)
    i = 0
    while i < len(toks):
        if toks[i].t == 'as' and i + 1 < len(toks) and toks[i + 1].t in ('f32', 'f64'):
            k = i - 1
            while True:
                if toks[k].t in (')', ']', '}'):
                    d = 0
                    while True:
                        if toks[k].t in ')]}': d += 1
                        if toks[k].t in '([{': d -= 1
                        if d == 0: break
                        k -= 1
                    if k > 0 and (toks[k - 1].k == 'id' and toks[k - 1].t not in ('return', 'let', '=')):
                        k -= 1
                        continue_ = True
                    else:
                        break
                elif k > 0 and toks[k - 1].t in ('.', '::'):
                    k -= 2
                else:
                    break
            to = toks[i + 1].t
            toks[k:i + 2] = rust.tokenize('crate::to_%s(' % to) + toks[k:i] + rust.tokenize(')')
            i = k
        i += 1
    return toks


def extract(feats):
    src = open(os.path.join(C.SRC, FILE), encoding='utf-8').read()
    items = rust.parse_items(rust.tokenize(src), feats)
    out, names, extra = [], [], []
    for it in items:
        if it.kind == 'fn' or it.kind == 'const' or it.kind == 'static' or it.kind == 'mod':
            extra.append(it.name)
        if it.kind != 'impl':
            continue
        head = rust.flat(it.head)
        m = re.match(r'impl MatrixDataType for (.*?)\s*$', head)
        if not m:
            continue
        ty = re.sub(r'\s', '', m.group(1))
        if ty not in TYPES:
            extra.append(ty)
            continue
        rec, root = TYPES[ty]
        if ty == 'f64' and 'micromath' in feats and not ({'std', 'libm'} & feats):
            root = 'root64_by32'
        out.append('impl MatrixDataType for %s {\n  open spec fn recip_ok(x: %s, r: %s) -> bool { %s(x, r) }\n  open spec fn root_ok(x: %s, r: %s) -> bool { %s(x, r) }' % (ty, ty, ty, rec, ty, ty, root))
        have = set()
        for f in it.items:
            if f.kind != 'fn':
                extra.append(f.name); continue
            have.add(f.name)
            body = casts(resolve(f.body, feats))
            names.append((ty, f.name))
            out.append('  fn %s(self) -> Self {\n    broadcast use {ops, root_by32};\n%s\n  }' % (f.name, rust.text(body)) if f.name in ('recip', 'square_root') else rust.text(f.toks))
        if 'recip' not in have:      # the trait's default: 1 / self
            out.append('  #[verifier::external_body] fn recip(self) -> Self { unimplemented!() }')
        out.append('}')
    pre = PRELUDE.replace('ROOT64_BY32', 'root64_by32(x, widened(s))')
    return pre + '\n'.join(out) + '\n} // verus!\nfn main() {}\n', names, extra


def verify(tag, feats, probe=False):
    text, names, extra = extract(feats)
    if probe:      # the negated contract must not be provable
        text = text.replace('-> bool { recip', '-> bool { !recip').replace('-> bool { root', '-> bool { !root')
    p = '%s/c19-%s-%d.rs' % (C.BUILD, tag, os.getpid())
    open(p, 'w').write(text)
    cmd = ['verus', p, '--crate-name', 'c19', '--crate-type', 'lib', '--rlimit', '50', '--error-format=json', '--output-json', '--time-expanded', '--triggers-mode', 'silent']
    rc, o, e = C.run(cmd, 120, cwd=C.BUILD)
    os.unlink(p)
    r = {'ok': False, 'names': names, 'extra': extra, 'status': {}, 'errors': [], 'cmd': ' '.join(cmd), 'text': text, 'smt': 0.0}
    if rc is None:
        r['errors'] = ['out of time']; return r
    msgs = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'):
                msgs.append(d.get('rendered') or d['message'])
    try:
        d = json.loads(o[o.index('{'):])
        res = d['verification-results']
    except Exception:
        res = {}
        d = {}
    r['errors'] = msgs
    if not res or res.get('encountered-vir-error') or 'smt' not in d.get('times-ms', {}):
        return r
    r['ok'] = True
    r['results'] = res
    for m in d['times-ms']['smt'].get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            r['status'][f['function']] = r['status'].get(f['function'], True) and f['success']
            r['smt'] += f.get('time-micros', 0) / 1e6
    return r


class Fl:
    def __init__(self, base):
        self.base, self.fails, self.stats, self.notes = base, [], {}, []

    def go(self, secs):
        lits = ','.join(sorted(C.literals() - set(self.base['ints'])))
        for feat in ('std', 'libm', 'micromath'):
            tgt = C.BUILD + '/fl-' + feat
            rc, o, e = C.run(['cargo', 'build', '--offline', '--features', feat, '--target-dir', tgt], 300, cwd=C.H + '/fl')
            if rc != 0:
                self.notes.append('fl (%s) does not build: %s' % (feat, '\n'.join(l for l in e.split('\n') if l.startswith('error'))[:300]))
                continue
            rc, o, e = C.run([tgt + '/debug/fl', str(secs)], secs + 60, env={'FZ_LITS': lits, 'VERIF_SEED': str(C.SEED)})
            m = re.search(r'RAN (\d+) KEPT (\d+)', o)
            if m:
                self.stats[feat] = {'ran': int(m.group(1)), 'kept': int(m.group(2))}
            elif rc not in (0, 1):
                self.notes.append('fl (%s) died with status %s' % (feat, rc))
            for f in re.findall(r'^FAIL .*(?:\n  .*)*', o, re.M):
                t = re.search(r'type=(\S+) bits=(\d+)', f)
                self.fails.append('back end %s: %s\n  replay: cd /verif/fl && cargo build --offline --features %s --target-dir %s && %s/debug/fl 1 --type %s --bits %s' % (feat, f, feat, tgt, tgt, t.group(1), t.group(2)))


def main():
    prop = 'C19'
    base = C.load_base()
    os.makedirs(C.BUILD, exist_ok=True)
    fl = Fl(base)
    th = threading.Thread(target=fl.go, args=(6 if C.TIER == 'quick' else 120,))
    th.start()
    v = C.Verus(gen.FE, 'c19', base, mods=['matrix::data_type'])
    v.go()
    runs, undecided, ntot, ndis = [], {}, 0, 0
    for tag, feats, _ in CONFIGS:
        try:
            r = verify(tag, feats)
        except Exception as ex:
            r = {'ok': False, 'errors': ['extraction failed: %s: %s' % (type(ex).__name__, ex)], 'names': [], 'status': {}, 'smt': 0, 'extra': [], 'text': '', 'cmd': ''}
        runs.append((tag, r))
        for ty, f in r['names']:
            ntot += 1
            hit = [s for n, s in r['status'].items() if n.rsplit('::', 1)[-1] == f and not n.startswith('c19::libm')]
        bad = [n for n, s in r['status'].items() if not s]
        ndis += len(r['names']) - len(bad) if r['ok'] else 0
        if not r['ok'] or bad or r['errors']:
            undecided['(%s)' % tag] = '; '.join(bad) + ' ' + ' | '.join(x.strip().replace('\n', ' ')[:300] for x in r['errors'][:3])
        if not any(t == 'f32' for t, _ in r['names']):
            undecided['(%s f32)' % tag] = 'no implementation found for f32'
    try:
        pr = verify('probe', CONFIGS[0][1], probe=True)
        vac = [n for n, s in pr['status'].items() if s and n.rsplit('::', 1)[-1] in ('recip', 'square_root') and 'Matrix' in n] if pr['ok'] else []
        nprobe = sum(1 for s in pr['status'].values() if not s)
        if not pr['ok'] or nprobe < len(pr['names']):
            undecided['(probe)'] = 'only %d of %d negated contracts rejected' % (nprobe, len(pr['names']))
    except Exception as ex:
        nprobe = 0
        undecided['(probe)'] = str(ex)[:200]
    dflt = [n for n in v.status if n.startswith('matrix::data_type::')]
    if not v.ok:
        undecided['(crate)'] = v.reason
    for n in dflt:
        ntot += 1
        ndis += v.status[n]
        if not v.status[n]:
            undecided[n] = 'the trait\'s own reciprocal: not discharged'
    if v.ok and not dflt:
        undecided['(default)'] = 'the trait\'s own reciprocal was not found'
    th.join()
    known = C.known_findings(prop)
    fails = []
    for f in fl.fails:
        hit = [t for pat, t in known if re.search(pat, f)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            fails.append(f)
    replay = '%s/replay/%s.txt' % (C.BUILD, prop)
    os.makedirs(C.BUILD + '/replay', exist_ok=True)
    if fails:
        open(replay, 'w').write('\n\n'.join(fails) + '\n\n' + '\n'.join('%s: %s' % kv for kv in undecided.items()) + '\n')
    full = not undecided and ntot > 0 and ndis == ntot
    tb = sorted(set(sum((C.trusted(r['text']) for _, r in runs), []))) + ['axiom: division 1.0 / x of f32 and f64 is total and gives the reciprocal', 'axiom: an f64 root taken through f32 is what micromath offers (root_by32)']
    ev = {'property': prop, 'tier': C.TIER if C.TIER in ('quick', 'thorough') else 'quick', 'seed': C.SEED, 'level': 'proof',
          'coverage': {'obligations': ntot, 'discharged': ndis, 'obligation_unit': 'one method of one element type under one feature set; the trait\'s default reciprocal',
                       'checker_cmd': '; '.join(r['cmd'] for _, r in runs), 'back_end': 'Verus 0.2026.09.13 / Z3', 'solver_seconds': round(sum(r['smt'] for _, r in runs) + v.smt, 2),
                       'trusted_base': tb, 'functions_under_contract': sorted({'%s::%s [%s]' % (t, f, tag) for tag, r in runs for t, f in r['names']}) + sorted(dflt),
                       'configurations': [sorted(f) for _, f, _ in CONFIGS], 'undecided': undecided, 'proved_on_this_run': full,
                       'vacuity_probes': {'negated_contracts_rejected': nprobe},
                       'evaluations': sum(s['ran'] for s in fl.stats.values()), 'distinct_nontrivial': sum(s['kept'] for s in fl.stats.values()),
                       'rule': 'the real methods under each back end against wider arithmetic (bounded search for a failing input, never counted as proved)',
                       'samples': ['%s: %s' % kv for kv in fl.stats.items()] or ['none'], 'falsifier': {'per_back_end': fl.stats, 'notes': fl.notes},
                       'explanation': 'proved, up to the assumed contracts of the primitive operations' if full else ('violation' if fails else 'not proved on this tree: bounded search only')},
          'assumptions': tb + C.TRUST, 'wall_s': round(time.time() - C.T0, 1), 'violations': len(fails)}
    os.makedirs(C.H + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (C.H, prop), 'w'), indent=1)
    C.log('%s: %d/%d obligations discharged, %d undecided; falsifier: %s %s' % (prop, ndis, ntot, len(undecided), fl.stats, fl.notes))
    for k, m in undecided.items():
        C.log('  undecided', k, m[:600])
    for f in fails[:4]:
        C.log('  ' + f)
    if fails:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif not full:
        print('NOTE property=%s not proved on this tree; no failing input in %s evaluations (bounded)' % (prop, ev['coverage']['evaluations']))
    sys.stdout.flush()
    sys.exit(1 if fails else 0)
