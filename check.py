#!/usr/bin/env python3
"""One property, one verdict.  See DESIGN.md, "How a check decides"."""
import sys, os, re, json, time, subprocess, threading, hashlib, shutil, signal, math
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H + '/vx')
import gen, scope, configs
REPO = os.environ.get('MK_REPO', '/repo')
SRC = REPO + '/crates/minikalman/src'
BUILD = H + '/build'
T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
HARD = 780 if TIER == 'quick' else 850
RLIMIT = '100'


def log(*a):
    print('[%5.1f]' % (time.time() - T0), *a, flush=True)


def left():
    return HARD - (time.time() - T0)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=cwd, start_new_session=True)
    try:
        o, r = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, r = p.communicate()
        return None, o, r


def mod_of(file):
    m = file[:-3].replace('/', '::')
    return re.sub(r'::mod$', '', m)


def fname(f):
    """module::Type::function"""
    owner, _, n = f.key.rpartition('::') if '::' in f.key else ('', '', f.key)
    owner = f.key[:-(len(n) + 2)] if owner else ''
    t = owner.split(' as ')[0]
    return mod_of(f.file) + '::' + (t + '::' if t else '') + n


def vname(n):
    """Verus' name of a function -> ours"""
    n = n.split('::', 1)[1]
    n = re.sub(r'Ops\d+(?=::)', '', n)
    return re.sub(r'\b(from|into)__', r'\1', n)


class Verus:
    """one extraction and one run of the verifier over it"""
    def __init__(self, feats, tag, base, mods=None, probe=False, seed=0, rlimit=RLIMIT):
        self.feats, self.tag, self.base, self.mods, self.probe, self.seed, self.rlimit = feats, tag, base, mods, probe, seed, rlimit
        self.fns, self.errors, self.status, self.notes, self.stubs = [], {}, {}, [], {}
        self.ok = False
        self.reason = ''
        self.text = ''
        self.smt = 0.0

    def go(self):
        try:
            self.go_()
        except Exception as ex:      # the extractor does not understand the source any more
            self.reason = 'extraction failed: %s: %s' % (type(ex).__name__, ex)
            self.ok = False

    def go_(self):
        stubs = set()
        for attempt in range(7):
            if left() < 60:
                self.reason = 'out of time'
                return
            x, s = gen.generate(SRC, self.feats, stubs=stubs, probe=self.probe, base=self.base['fns'])
            self.x, self.fns, self.notes, self.text, self.inlined = x, x.fns, x.notes, s, x.inlined
            self.src = '%s/vx-%s-%d.rs' % (BUILD, self.tag, os.getpid())
            os.makedirs(BUILD, exist_ok=True)
            open(self.src, 'w').write(s)
            self.cmd = ['verus', self.src, '--crate-name', 'mk', '--crate-type', 'lib', '--triggers-mode', 'silent', '--rlimit', self.rlimit,
                        '--multiple-errors', '0' if self.probe else '3', '--error-format=json', '--output-json', '--time-expanded']
            if self.seed:
                self.cmd += ['--smt-option', 'smt.random_seed=%d' % self.seed]
            for m in self.mods or []:
                self.cmd += ['--verify-only-module', m]
            rc, out, err = run(self.cmd, left() - 30, cwd=BUILD)
            self.raw = err
            os.path.exists(self.src) and os.unlink(self.src)
            if rc is None:
                self.reason = 'the verifier ran out of time'
                return
            try:
                d = json.loads(out[out.index('{'):])
                res = d['verification-results']
            except Exception:
                d, res = {}, {}
            diags = self.diags(err)
            if not res or res.get('encountered-vir-error') or 'smt' not in d.get('times-ms', {}) or not res.get('verified', 0) + res.get('errors', 0):
                bad = {k for k, m, r in diags if k} - set(stubs)
                for k, m, r in diags:
                    if k:
                        self.stubs[k] = m
                if not bad:
                    self.reason = 'the verifier does not accept the extracted text: ' + '; '.join(m for _, m, _ in diags)[:600]
                    return
                stubs |= bad
                continue
            self.results = res
            for m in d['times-ms']['smt'].get('smt-run-module-times', []):
                for f in m.get('function-breakdown', []):
                    n = vname(f['function'])
                    self.status[n] = self.status.get(n, True) and f['success']
                    self.smt += f.get('time-micros', 0) / 1e6
                    self.nq = getattr(self, 'nq', 0) + 1
            for k, m, r in diags:
                self.errors.setdefault(k or '?', []).append((m, r))
            self.ok = True
            return
        self.reason = 'too many functions outside the verifier\'s subset'

    def diags(self, err):
        out = []
        for l in err.split('\n'):
            if not l.startswith('{'):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') != 'error' or d['message'].startswith('aborting due'):
                continue
            key = ''
            prim = [s for s in d['spans'] if s.get('is_primary')] or d['spans']
            for s in prim + d['spans']:
                for f in self.fns:
                    if f.first <= s['line_start'] <= f.last:
                        key = f.file + '|' + f.key
                        break
                if key:
                    break
            out.append((key, d['message'], d.get('rendered', '')))
        return out


def closure(fns, own, prop):
    """functions of the property and those they call, by name, in the bodies as extracted"""
    byname = {}
    for f in fns:
        byname.setdefault(fname(f).rsplit('::', 1)[-1], []).append(f)
    todo = [f for f in fns if any(re.match(r, fname(f)) for r in own)]
    seen = {id(f): f for f in todo}
    while todo:
        f = todo.pop()
        for m in re.finditer(r'(?:(?:\. )|(?:\b\w+ :: )|(?<![\w.]))(\w+)\s*(?=\(|::\s*<)', f.body or ''):
            for g in byname.get(m.group(1), []):
                if id(g) in seen:
                    continue
                if mod_of(g.file) in scope.CALLEE_MODS or (mod_of(g.file) == mod_of(f.file) and ' as ' not in g.key):
                    seen[id(g)] = g
                    todo.append(g)
    return list(seen.values())


def load_base():
    p = H + '/vx/base.json'
    return json.load(open(p)) if os.path.exists(p) else {'fns': {}, 'ints': [], 'notes': []}


def literals():
    """numbers written in the code under test (comments, strings and test modules left out)"""
    import rust
    out = set()
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith('.rs') and f not in ('test_dummies.rs',):
                try:
                    toks = rust.tokenize(open(os.path.join(d, f), encoding='utf-8').read())
                except Exception:
                    continue
                n = len(toks)
                for i, t in enumerate(toks):
                    if t.t == 'mod' and i + 1 < n and toks[i + 1].t in ('tests', 'test'):
                        break
                    m = re.fullmatch(r'(0x[\da-fA-F_]+?|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d+)?(?:[eE][-+]?\d+)?)(?:_?[iuf]\d+|_?usize|_?isize)?', t.t)
                    if m:
                        v = m.group(1).replace('_', '')
                        if v[:2] in ('0x', '0b', '0o'):
                            v = str(int(v, 0))
                        out.add(v)
                        if i >= 2 and toks[i - 1].t == '<<' and toks[i - 2].t.isdigit() and v.isdigit() and int(v) < 40:
                            out.add(str(int(toks[i - 2].t) << int(v)))
    return out


class Falsifier:
    """runs the real crate on generated inputs; looks for an input that breaks the property"""
    def __init__(self, prop, base, config=None):
        self.prop, self.base = prop, base
        self.built, self.fails, self.stats, self.samples, self.note = False, [], {}, [], ''
        feats, self.profile = (configs.CONFIGS[config][1].split(','), configs.CONFIGS[config][2]) if config else (['base'], 'dev')
        self.feats = [prop] + feats + (['nalgebra'] if prop in ('C14', 'C17') and 'base' in feats else [])
        self.config = config
        self.dir = BUILD + ('/fz-' + config if config else '/fz')

    def build(self):
        new = literals() - set(self.base['ints'])
        dims = sorted({int(v) + d for v in new if v.isdigit() and 2 <= int(v) <= 34 for d in (-1, 0, 1) if 1 <= int(v) + d <= 34})[:9]
        self.lits = ','.join(sorted(new))
        # a larger number may bound a dimension, or the number of elements of a square matrix
        big = sorted({int(v) + d for v in new if v.isdigit() and 34 < int(v) <= 130 for d in (0, 1)}
                     | {math.isqrt(int(v)) + d for v in new if v.isdigit() and 34 < int(v) <= 17000 for d in (0, 1)})
        dims = sorted(set(dims) | {n for n in big if n <= 34})[:9]
        big = [n for n in big if n > 34][:4]
        one = ' '.join(map(str, dims + big))
        two = ' '.join(['(%d,%d) (%d,2) (2,%d) (1,%d) (%d,1)' % (n, n, n, n, n, n) for n in dims] + ['(%d,1) (1,%d)' % (n, n) for n in big])
        three = ' '.join(['(%d,%d,%d) (%d,2,2) (2,%d,2) (2,2,%d)' % (n, n, n, n, n, n) for n in dims] + ['(%d,1,1) (1,%d,1) (1,1,%d)' % (n, n, n) for n in big])
        dims = dims + big
        if dims:
            txt = ''.join('macro_rules! extra%d { ($v:ident, $f:ident) => { extra!(%d, %s; $v, $f); } }\n' % (k, k, v) for k, v in ((1, one), (2, two), (3, three)))
        else:
            txt = ''.join('macro_rules! extra%d { ($v:ident, $f:ident) => {} }\n' % k for k in (1, 2, 3))
        os.makedirs(BUILD, exist_ok=True)
        ex = BUILD + '/extra.rs'
        if not os.path.exists(ex) or open(ex).read() != txt:
            open(ex, 'w').write(txt)
        cmd = ['cargo', 'build', '--offline', '--profile', self.profile, '--target-dir', self.dir, '--features', ','.join(self.feats)]
        rc, o, e = run(cmd, min(400, left() - 60), env={'FZ_EXTRA': ex}, cwd=H + '/fz')
        if rc != 0 and dims:
            open(ex, 'w').write(''.join('macro_rules! extra%d { ($v:ident, $f:ident) => {} }\n' % k for k in (1, 2, 3)))
            rc, o, e = run(cmd, min(400, left() - 60), env={'FZ_EXTRA': ex}, cwd=H + '/fz')
        self.built = rc == 0
        if not self.built:
            self.note = 'the falsifier does not build against this tree: ' + '\n'.join(l for l in e.split('\n') if l.startswith('error'))[:400]
        self.bin = self.dir + ('/debug/fz' if self.profile == 'dev' else '/%s/fz' % self.profile)
        self.how = 'cd /verif/fz && %s && FZ_LITS=%s %s' % (' '.join(cmd), self.lits, self.bin)

    def search(self, secs, seed):
        if not self.built or left() < 20:
            return
        secs = min(secs, left() - 15)
        env = {'FZ_LITS': self.lits, 'VERIF_SEED': str(seed)}
        ts = [threading.Thread(target=self.one, args=(secs, env, opt)) for opt in ([], ['--guided'])]
        [x.start() for x in ts]
        [x.join() for x in ts]

    def one(self, secs, env, opt):
        cmd = [self.bin, self.prop, str(int(secs))] + opt
        rc, o, e = run(cmd, secs + 60, env=env)
        if rc is not None and rc not in (0, 1):      # died: find out on which case
            rc2, o2, e2 = run(cmd + ['--trace'], secs + 60, env=env)
            tr = [l for l in e2.split('\n') if l.startswith('TRACE ')]
            if rc2 not in (0, 1, None) and tr:
                self.fails.append('FAIL property=%s %s\n  the process died (status %s) inside the library call' % (self.prop, tr[-1][6:], rc2))
            else:
                self.note = 'the falsifier died with status %s' % rc
        m = re.search(r'RAN (\d+) KEPT (\d+) DISTINCT (\d+) CASES (\d+) ROUNDS (\d+)', o)
        if m:
            for k, v in zip(('ran', 'kept', 'distinct', 'cases', 'rounds'), m.groups()):
                if not opt or k in ('ran', 'kept'):
                    self.stats[k] = (0 if k == 'cases' else self.stats.get(k, 0)) + int(v)
                if opt and k == 'ran':
                    self.stats['guided'] = self.stats.get('guided', 0) + int(v)
        self.samples += [l[7:] for l in o.split('\n') if l.startswith('SAMPLE ')][:3]
        self.fails += re.findall(r'^FAIL .*(?:\n  .*)*', o, re.M)

    def repro(self):
        out = []
        for f in self.fails:
            m = re.search(r'case=(.*?) round=(\d+) seed=(\d+)(?: with=(\S+))?', f)
            if m:
                out.append("%s %s 0 --only '%s' --round %s --seed %s%s" % (self.how, self.prop, m.group(1), m.group(2), m.group(3), ' --with ' + m.group(4) if m.group(4) else ''))
        return out


def known_findings(prop):
    p = H + '/known-findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def trusted(text):
    """mechanical scan for what the verifier is told to believe"""
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        m = re.search(r'assume_specification[^\[]*\[([^\]]*\]?[^\]]*)\]', l)
        if m:
            out.append('assume_specification ' + m.group(1).strip())
        if 'external_body' in l and 'verifier' in l:
            nxt = ' '.join(x.strip() for x in lines[i + 1:i + 2])
            out.append('external_body ' + nxt[:110])
        if re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'):
            out.append('assume/admit: ' + l.strip()[:110])
        if re.search(r'verifier::(external|truncate|exec_allows_no_decreases_clause)\b', l):
            out.append(l.strip()[:110])
    return sorted(set(out))


def main():
    prop = sys.argv[1]
    base = load_base()
    if prop == '--base':
        return make_base()
    if prop == 'C19':
        import c19
        return c19.main()
    feats = [gen.FE]
    if prop in ('C15', 'C14') or TIER == 'thorough':
        feats.append(gen.FE | {'no_assert'})
    more = configs.wanted(SRC, base.get('cfg', []))
    if TIER == 'thorough':
        more += [c for c in ('libm', 'micromath') if c not in more]
    fz = Falsifier(prop, base)
    vs = [Verus(f, 'm%d' % i, base) for i, f in enumerate(feats)]
    vs += [Verus(configs.CONFIGS[c][0], 'c-' + c, base) for c in more if configs.CONFIGS[c][0] not in feats]
    if more:
        log('also examined:', more)
    if TIER == 'thorough':
        vs += [Verus(gen.FE, 's%d' % k, base, seed=k) for k in (SEED + 10, SEED + 20)]

    def fz_thread():
        fz.build()
        log('falsifier built' if fz.built else fz.note)
        fz.search(12 if TIER == 'quick' else 150, SEED)
        for c in more:
            if fz.fails or left() < 150:
                break
            f = Falsifier(prop, base, c)
            f.build()
            log('falsifier (%s) built' % c if f.built else f.note)
            f.search(20, SEED)
            fz.stats['ran'] = fz.stats.get('ran', 0) + f.stats.get('ran', 0)
            if f.fails:
                fz.fails, fz.how = f.fails, f.how
    th = threading.Thread(target=fz_thread)
    th.start()
    if prop in scope.P:
        vt = [threading.Thread(target=v.go) for v in vs[:2]]
        for t in vt:
            t.start()
        vt[0].join()
    main_v = vs[0]
    # vacuity: the same obligations with `false` asserted at the end of every function must fail
    probe = None
    own = scope.P.get(prop, []) + [r'thm::%s_' % prop.lower()]
    scoped = closure(main_v.fns, own, prop) if main_v.ok else []
    if main_v.ok:
        mods = sorted({mod_of(f.file) for f in scoped})
        probe = Verus(gen.FE, 'probe', base, mods=mods, probe=True, rlimit='10')
        probe.go()
    for t in vt if prop in scope.P else []:
        t.join()
    for v in vs[2:]:
        if left() > 200:
            v.go()
    th.join()
    decide(prop, base, vs, scoped, probe, fz)


def decide(prop, base, vs, scoped, probe, fz):
    v0 = vs[0]
    failed, undecided, names = {}, {}, {f.file + '|' + f.key: f for f in scoped}
    vac = []
    newfns = {f.file + '|' + f.key for f in v0.fns} - set(base['fns'])
    newnames = {k.split('|')[1].rsplit('::', 1)[-1] for k in newfns}
    thm = [n for n in v0.status if n.startswith('thm::%s_' % prop.lower())]
    for v in vs:
        if not v.ok:
            undecided['(run %s)' % v.tag] = v.reason or 'not run'
            continue
        for k, m in v.stubs.items():
            if k in names:
                undecided[k] = 'outside the verifier\'s subset: ' + m[:200]
        for k, es in v.errors.items():
            if k in names or k == '?':
                f = names.get(k)
                if any('rlimit' in m.lower() or 'resource limit' in m.lower() for m, _ in es):
                    undecided[k] = 'resource limit'
                    continue
                b = base['fns'].get(k)
                if f is not None and (b is None or b['loops'] != f.loopkinds or b['sig'] != f.sig and not f.renamed or f.renamed
                                      or len(b['binders']) != len(f.binders) or b['calls'] != f.calls):
                    undecided[k] = 'the function was restructured (annotations no longer fit): ' + es[0][0][:200]
                elif f is not None and any(re.search(r'(?<!\w)%s (?:\(|::)' % re.escape(n), f.body) for n in newnames):
                    undecided[k] = 'calls a function that has no contract yet: ' + es[0][0][:200]
                elif v.seed:
                    undecided[k] = 'not stable under another solver seed'
                else:
                    failed.setdefault(k, []).extend(es)
    extra_notes = [n for n in v0.notes if n not in base['notes']]
    # obligations in the scope
    vnames = set()
    if v0.ok:
        sc = {fname(f).replace('[T;TOTAL]', '') for f in scoped}
        # trait methods and impls appear under the trait's or the type's name
        for n in v0.status:
            if n in sc or n.startswith('g::') or n in thm or thm and n.startswith('thm::') and not re.match(r'thm::c\d\d_', n) or any(n.rsplit('::', 1)[0].rsplit('::', 1)[0] == s.rsplit('::', 1)[0].rsplit('::', 1)[0] and n.rsplit('::', 1)[1] == s.rsplit('::', 1)[1] for s in sc):
                vnames.add(n)
    bad_g = [n for n in vnames if not v0.status[n] and (n.startswith('g::') or n.startswith('thm::'))]
    for n in bad_g:
        undecided[n] = 'lemma or theorem not discharged'
    dead_g = [k for k in failed if k == '?']
    if probe is not None and probe.ok:
        pn = {fname(f) for f in scoped if f.has_body}
        vac = sorted(n for n, ok in probe.status.items() if ok and n in pn)
        for n in vac:
            undecided[n] = 'vacuous: false is provable at its end'
    elif probe is not None:
        undecided['(probe)'] = probe.reason
    # dig deeper when a proof failed and no input is known yet
    if (failed or undecided) and not fz.fails and fz.built:
        for k in range(3):
            if fz.fails or left() < 90:
                break
            fz.search(40, SEED + 1000 + k)
    known = known_findings(prop)
    fails = []
    for f in fz.fails:
        hit = [t for pat, t in known if re.search(pat, f)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            fails.append(f)
    fz.fails = fails
    os.makedirs(BUILD + '/replay', exist_ok=True)
    replay = '%s/replay/%s.txt' % (BUILD, prop)
    verdict = 0
    if fails or failed:
        verdict = 1
        with open(replay, 'w') as r:
            r.write('property %s\n' % prop)
            for f, c in zip(fails, fz.repro()):
                r.write('\nInput on which the real code breaks it:\n%s\nReplay:\n%s\n' % (f, c))
            for k, es in failed.items():
                r.write('\nObligation not discharged: %s\n' % k)
                for m, txt in es:
                    r.write(txt + '\n')
            for k, m in undecided.items():
                r.write('\nUndecided: %s: %s\n' % (k, m))
    ntot = len(vnames)
    ndis = sum(1 for n in vnames if v0.status[n])
    full = v0.ok and ntot > 0 and ndis == ntot and not undecided and not failed and not vac
    ev = {
        'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
        'level': 'proof' if prop in scope.P else 'exploration',
        'coverage': {
            'obligations': ntot, 'discharged': ndis,
            'obligation_unit': 'one function (or lemma): all its postconditions, callee preconditions, loop invariants, termination, overflow and index checks',
            'checker_cmd': ' '.join(v0.cmd) if hasattr(v0, 'cmd') else '',
            'back_end': 'Verus 0.2026.09.13 / Z3', 'solver_seconds': round(sum(v.smt for v in vs), 1),
            'trusted_base': trusted(v0.text) + TRUST,
            'functions_under_contract': sorted(fname(f) for f in scoped),
            'theorems': sorted(thm),
            'whole_crate': getattr(v0, 'results', {}),
            'configurations': [sorted(v.feats) for v in vs],
            'proved_on_this_run': full,
            'undecided': undecided, 'failed': {k: [m for m, _ in es] for k, es in failed.items()},
            'vacuity_probes': {'asserted_false_in': len(probe.status) if probe else 0, 'wrongly_accepted': vac},
            'not_carried_over': v0.notes,
            'inlined_helpers': getattr(v0, 'inlined', []),
            'renamed_locals': {f.key: f.renamed for f in v0.fns if f.renamed},
            'evaluations': fz.stats.get('ran', 0), 'distinct_nontrivial': fz.stats.get('distinct', 0),
            'rule': 'falsifier: generated calls of the real crate compared with exact rational arithmetic (a bounded search for a failing input, never counted as proved); distinct by the generated input',
            'samples': fz.samples[:3] or ['none'],
            'falsifier': dict(fz.stats, note=fz.note, bounded='dimensions up to 17 (plus those next to integer literals new in the source)'),
            'explanation': 'proved' if full else ('violation' if verdict else 'not proved on this tree: bounded falsification only'),
        },
        'assumptions': TRUST, 'wall_s': round(time.time() - T0, 1), 'violations': len(fails) + len(failed) if verdict else 0,
    }
    os.makedirs(H + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (H, prop), 'w'), indent=1)
    log('%s: %d/%d obligations discharged, %d undecided, %d failed; falsifier: %s %s' % (prop, ndis, ntot, len(undecided), len(failed), fz.stats, fz.note))
    for k, m in list(undecided.items())[:12]:
        log('  undecided', k, m.split('\n')[0][:200])
    for k, es in failed.items():
        log('  not discharged:', k, '|', '; '.join(m for m, _ in es)[:300])
    for f in fails[:3]:
        log('  ' + f[:1500])
    if verdict:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if fails else ' no-failing-input-found'))
    elif not full:
        print('NOTE property=%s not proved on this tree; no failing input in %s evaluations (bounded)' % (prop, fz.stats.get('ran', 0)))
    sys.stdout.flush()
    sys.exit(verdict)


TRUST = [
    'element type T behaves as exact real arithmetic (laws_hold: +,-,*,/,neg,compare,zero,one, recip, square_root); floating-point rounding is outside the proof',
    'Verus, its Z3, vstd, and the extractor (vx/extract.py) that cuts the crate into one file: what it drops or rewrites is listed in DESIGN.md',
    '<[T]>::fill, Vec::into_boxed_slice, vec![v; n] (contracts assumed)',
]


def make_base():
    x, s = gen.generate(SRC, gen.FE)
    base = {'fns': {f.file + '|' + f.key: {'loops': f.loopkinds, 'sig': f.sig, 'binders': f.binders, 'calls': f.calls} for f in x.fns}, 'ints': sorted(literals()), 'notes': x.notes, 'cfg': configs.fingerprint(SRC)}
    json.dump(base, open(H + '/vx/base.json', 'w'), indent=0, sort_keys=True)
    print(len(base['fns']), base['ints'], base['notes'])


if __name__ == '__main__':
    main()
