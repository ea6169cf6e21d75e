"""Cut the real crate into one Verus file, mechanically, on every run.

What this does to the source text is listed in DESIGN.md ("What the extraction drops or
rewrites"); nothing in here knows what a function computes."""
import os, re, copy, difflib
import inline
from rust import *

EXT_USE = {  # external names with a contract of ours instead of the dependency's own
    'core::ops::Index': 'crate::g::Index', 'core::ops::IndexMut': 'crate::g::IndexMut',
    'std::ops::Index': 'crate::g::Index', 'std::ops::IndexMut': 'crate::g::IndexMut',
    'num_traits::One': 'crate::g::One', 'num_traits::Zero': 'crate::g::Zero',
    'nalgebra::Const': 'crate::g::Const', 'nalgebra::IsContiguous': 'crate::g::IsContiguous', 'nalgebra::RawStorage': 'crate::g::RawStorage',
    'alloc::boxed::Box': 'std::boxed::Box', 'alloc::vec::Vec': 'std::vec::Vec',
}
EXT_PATH = [(('core', '::', 'convert', '::', 'From'), ('crate', '::', 'g', '::', 'From')),
            (('core', '::', 'convert', '::', 'Into'), ('crate', '::', 'g', '::', 'Into')),
            (('core', '::', 'convert', '::', 'AsRef'), ('crate', '::', 'g', '::', 'AsRef')),
            (('core', '::', 'convert', '::', 'AsMut'), ('crate', '::', 'g', '::', 'AsMut')),
            (('std', '::', 'slice', '::', 'from_raw_parts'), ('crate', '::', 'g', '::', 'from_raw_parts')),
            (('core', '::', 'slice', '::', 'from_raw_parts'), ('crate', '::', 'g', '::', 'from_raw_parts')),
            (('core', '::', 'ops', '::', 'Index'), ('crate', '::', 'g', '::', 'Index')),
            (('core', '::', 'ops', '::', 'IndexMut'), ('crate', '::', 'g', '::', 'IndexMut'))]
SKIP_MODS = {('static_macros',), ('buffers', 'macros')}


class Fn:
    """one function of the crate as it went into the Verus file"""
    def __init__(self, key, file, line):
        self.key, self.file, self.line = key, file, line
        self.loops = []; self.first = self.last = 0
        self.renamed = {}; self.binders = []; self.calls = []; self.loopkinds = []; self.stub = False; self.annotated = False; self.sig = ''; self.body = ''


def is_seq(toks, i, words):
    return i + len(words) <= len(toks) and all(toks[i + k].t == w for k, w in enumerate(words))


def last_ident_of_path(toks):
    """name of the type/trait at the head of a path: `crate::matrix::MatrixDataArray<..>`"""
    name, i = '', 0
    while i < len(toks):
        if toks[i].k == 'id':
            name = toks[i].t
            i += 1
            if i < len(toks) and toks[i].t == '::':
                i += 1
                continue
            return name, toks[i:]
        if toks[i].t == '::':
            i += 1
            continue
        break
    return '', toks


def impl_parts(head):
    """head: `impl <generics> [Trait for] Type [where ..]` -> (generics, trait, type, where)"""
    h = list(head)
    i = 1
    gen = []
    if h[i].t == '<':
        e = angle(h, i)
        gen = h[i:e + 1]; i = e + 1
    d, w, f = 0, None, None
    j = i
    while j < len(h):
        t = h[j].t
        if t == '<':
            j = angle(h, j)
        elif t in OPEN:
            j = match(h, j)
        elif t == 'where' and w is None:
            w = j
        elif t == 'for' and f is None and w is None:
            f = j
        j += 1
    where = h[w:] if w is not None else []
    end = w if w is not None else len(h)
    if f is not None:
        return gen, h[i:f], h[f + 1:end], where
    return gen, [], h[i:end], where


def impl_key(it):
    gen, tr, ty, wh = impl_parts(it.head)
    n, rest = last_ident_of_path(ty)
    tn = n or flat(ty).replace(' ', '')
    if not tr:
        return tn
    m, rest = last_ident_of_path(tr)
    k = tn + ' as ' + m
    if m in ('From', 'AsRef', 'AsMut', 'Into'):
        k += flat(rest).replace(' ', '')
        if m == 'From' and n == '' or rest and flat(rest).replace(' ', '').startswith('<MatrixData'):
            pass
    if m == 'From':
        g = flat(rest)
        k = tn + ' as From' + re.sub(r"'a|\s", '', g)
    return k


class Extractor:
    def __init__(self, src, feats, spec, stubs=(), only=None, probe=False, base=None):
        self.probe = probe
        self.guards = False
        self.base = base or {}     # binder names the annotations were written against
        self.src, self.feats, self.spec = src, set(feats), spec
        self.stubs = set(stubs)
        self.fns = []          # Fn
        self.notes = []        # what could not be carried over
        self.macros = {}
        self.ctx = None
        self.out = []
        self.mods = load(src, lambda p: open(p, encoding='utf-8').read(), 'lib.rs', self.feats)
        for m, its in self.mods:
            for it in its:
                if it.kind == 'macro_rules':
                    try:
                        self.macros[it.name] = parse_macro(it.body)
                    except Exception as e:
                        self.notes.append('macro %s not parsed: %s' % (it.name, e))
        self.expand_item_macros()
        self.assoc = set()
        for m, its in self.mods:
            for it in its:
                if it.kind in ('trait', 'impl') and it.items:
                    for f in it.items:
                        if f.kind == 'const':
                            self.const_fn(f, it)
        self.inlined = inline.run(self.mods, set(self.base)) if self.base else []
        self.find_cycles()

    def const_fn(self, f, it):
        """`const N: T = e` of a trait or impl -> `fn N() -> T { e }`, and every `..::N` a call of it"""
        h = [t.t for t in f.head]
        if '=' not in h or h[2] != ':':
            return
        k = h.index('=')
        f.kind, f.body = 'fn', f.head[k + 1:]
        f.head = tokenize('fn %s ( ) -> ' % f.name) + f.head[3:k]
        f.file = it.file
        self.assoc.add(f.name)

    # -------------------------------------------------------------- macros
    def expand_item_macros(self):
        for k, (m, its) in enumerate(self.mods):
            done = []
            work = list(its)
            fuel = 400
            while work and fuel:
                it = work.pop(0)
                if it.kind == 'maccall' and it.name in self.macros:
                    fuel -= 1
                    toks = expand_macro(self.macros[it.name], it.body, it.name)
                    new = parse_items(toks, self.feats)
                    for x in new:
                        x.file = it.file; x.line = it.line
                        for s in x.items or []:
                            s.file = it.file; s.line = it.line
                    work = new + work
                else:
                    done.append(it)
            self.mods[k] = (m, done)

    def expand_body(self, toks):
        """cfg blocks, expression macros of the crate, debug_assert/assert"""
        out, i = [], 0
        while i < len(toks):
            t = toks[i]
            if t.t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
                a, j, _ = parse_attr(toks, i)
                on = not (a and a[0].t == 'cfg') or eval_cfg(a[2:-1], self.feats)
                # the attributed statement: a block or up to ';'
                if toks[j].t == '{':
                    e = match(toks, j)
                else:
                    e = j
                    while toks[e].t != ';':
                        if toks[e].t in OPEN:
                            e = match(toks, e)
                        e += 1
                if on:
                    seg = self.expand_body(toks[j:e + 1])
                    if seg:
                        seg[0].nl = seg[0].nl or t.nl
                    out += seg
                i = e + 1
                continue
            if t.k == 'id' and i + 2 < len(toks) and toks[i + 1].t == '!' and toks[i + 2].t in OPEN:
                e = match(toks, i + 2)
                args = toks[i + 3:e]
                if t.t == 'cfg':
                    out.append(Tok('id', 'true' if eval_cfg(args, self.feats) else 'false', t.nl, t.line))
                    i = e + 1
                    continue
                if t.t in ('debug_assert', 'assert', 'debug_assert_eq', 'assert_eq', 'debug_assert_ne', 'assert_ne'):
                    if 'debug' in t.t and 'no_assert' in self.feats and False:
                        pass
                    parts = split_commas(args)
                    if self.guards and 'debug' not in t.t:      # a run-time guard: the code after it runs only if it holds
                        if t.t.endswith('_eq') or t.t.endswith('_ne'):
                            op = '==' if t.t.endswith('eq') else '!='
                            s = 'if !((%s) %s (%s)) { crate::g::panics(); }' % (flat(self.expand_body(parts[0])), op, flat(self.expand_body(parts[1])))
                        else:
                            s = 'if !(%s) { crate::g::panics(); }' % flat(self.expand_body(parts[0]))
                    elif t.t.endswith('_eq') or t.t.endswith('_ne'):
                        op = '==' if t.t.endswith('eq') else '!='
                        l, r = flat(self.expand_body(parts[0])), flat(self.expand_body(parts[1]))
                        s = '{ let l__ = %s; let r__ = %s; assert(l__ %s r__); }' % (l, r, op)
                    else:
                        s = '{ let b__ = %s; assert(b__); }' % flat(self.expand_body(parts[0]))
                    new = tokenize(s)
                    if e + 1 < len(toks) and toks[e + 1].t == ';':
                        e += 1
                    for x in new:
                        x.nl = 0
                    new[0].nl = t.nl
                    out += new
                    i = e + 1
                    continue
                if t.t in self.macros:
                    new = expand_macro(self.macros[t.t], args, t.t)
                    new = self.expand_body(new)
                    new = [Tok('op', '(')] + [Tok(x.k, x.t, 0, x.line) for x in new] + [Tok('op', ')')]
                    new[0].nl = t.nl
                    out += new
                    i = e + 1
                    continue
                if t.t == 'vec' and ';' in [x.t for x in args]:
                    k = [x.t for x in args].index(';')
                    # drop a leading `alloc::`/`std::`
                    while len(out) >= 2 and out[-1].t == '::' and out[-2].t in ('alloc', 'std'):
                        out = out[:-2]
                    new = tokenize('crate::g::vec_repeat(%s, %s)' % (flat(self.expand_body(args[:k])), flat(self.expand_body(args[k + 1:]))))
                    out += new
                    i = e + 1
                    continue
            if t.t in ('from', 'into') and i and toks[i - 1].t in ('::', '.', 'fn') and i + 1 < len(toks) and toks[i + 1].t == '(':
                out.append(Tok('id', t.t + '__', t.nl, t.line))
                i += 1
                continue
            if t.k == 'id' and t.t in self.assoc and i and toks[i - 1].t == '::' and not (i + 1 < len(toks) and toks[i + 1].t == '('):
                out += [t] + tokenize('( )')
                i += 1
                continue
            for a, b in EXT_PATH:
                if is_seq(toks, i, a):
                    out += [Tok('id' if x != '::' else 'op', x, t.nl if n == 0 else 0) for n, x in enumerate(b)]
                    i += len(a)
                    break
            else:
                out.append(t)
                i += 1
        return out

    # -------------------------------------------------------------- trait cycles
    def find_cycles(self):
        sup, self.traits = {}, {}
        for m, its in self.mods:
            for it in its:
                if it.kind == 'trait':
                    self.traits[it.name] = it
                    ids = [t.t for t in it.head[2:] if t.k == 'id']
                    sup[it.name] = ids
        def trans(n, seen):
            for s in sup.get(n, []):
                if s in sup and s not in seen:
                    seen.add(s); trans(s, seen)
            return seen
        self.super = {n: trans(n, set()) for n in sup}
        self.moved = {}       # trait -> set of method names
        for n, it in self.traits.items():
            mv = set()
            for f in it.items or []:
                if f.kind == 'fn':
                    ids = {t.t for t in f.head if t.k == 'id'}
                    if any(n in self.super[b] for b in ids if b in self.super):
                        mv.add(f.name)
            if mv:
                lv = {}
                def level(m, seen=()):
                    if m in lv or m in seen:
                        return lv.get(m, 0)
                    f = [f for f in it.items if f.kind == 'fn' and f.name == m][0]
                    ids = set()
                    for k, t in enumerate(f.body or []):
                        if t.k == 'id' and k and f.body[k - 1].t in ('.', '::') and t.t in mv:
                            ids.add(t.t)
                    lv[m] = max([1 + level(c, seen + (m,)) for c in ids] or [0])
                    return lv[m]
                for m in mv:
                    level(m)
                self.moved[n] = lv

    # -------------------------------------------------------------- output
    def w(self, s):
        self.out.extend(s.split('\n'))

    def lineno(self):
        return len(self.out) + 1

    def emit_use(self, it, modpath):
        leaves = []
        toks = it.head[1:]

        def walk(toks, prefix):
            i, path = 0, list(prefix)
            while i < len(toks):
                t = toks[i]
                if t.t == '{':
                    e = match(toks, i)
                    for p in split_commas(toks[i + 1:e]):
                        walk(p, path)
                    return
                if t.t == '::':
                    i += 1
                    continue
                if t.t == 'as':
                    leaves.append((path, toks[i + 1].t))
                    return
                path.append(t.t)
                i += 1
            leaves.append((path, None))
        walk(toks, [])
        for path, alias in leaves:
            p = '::'.join(path)
            if path[0] == 'crate' and self.modfilter and path[1] not in self.tops:
                continue
            if path[-1] in self.macros and path[-1] != '*':
                continue
            if path[0] in ('fixed', 'num_traits', 'micromath', 'libm', 'nalgebra') and p not in EXT_USE:
                continue
            if p in EXT_USE:
                p = EXT_USE[p]
            if p == 'num_traits':
                continue
            if path[-1] in self.moved:
                for lev in sorted(set(self.moved[path[-1]].values())):
                    q = '::'.join(p.split('::')[:-1] + [path[-1] + 'Ops%d' % lev])
                    self.w('%suse %s;' % ('pub ' if it.vis else '', q))
            self.w('%suse %s%s;' % ('pub ' if it.vis else '', p, ' as ' + alias if alias else ''))

    def emit_struct(self, it):
        h = list(it.head)
        # where-less generics then fields
        if it.style == 'brace':
            fields = split_commas(it.body)
            fs = []
            for f in fields:
                f = strip_attr_vis(f)
                if f:
                    fs.append('pub ' + flat(f))
            self.w('pub ' + flat(h) + ' { ' + ', '.join(fs) + ' }')
        else:
            i = 2
            if i < len(h) and h[i].t == '<':
                i = angle(h, i) + 1
            if i < len(h) and h[i].t == '(':
                e = match(h, i)
                fs = ['pub ' + flat(strip_attr_vis(f)) for f in split_commas(h[i + 1:e])]
                self.w('pub ' + flat(h[:i]) + '(' + ', '.join(fs) + ')' + (' ' + flat(h[e + 1:]) if e + 1 < len(h) else '') + ';')
            else:
                self.w('pub ' + flat(h) + ';')

    def emit_trait(self, it):
        head = self.expand_body(it.head)
        mv = self.moved.get(it.name, {})
        self.w('pub ' + flat(head) + ' {')
        self.emit_extra(it.name)
        for f in it.items:
            if f.kind == 'fn':
                if f.name not in mv:
                    self.emit_fn(f, it.name, True)
            elif f.kind == 'const':
                self.notes.append('associated const %s::%s dropped' % (it.name, f.name))
            else:
                self.w(flat(self.expand_body(f.toks)))
        self.w('}')
        if mv:
            # trait with its generics, extension trait with the moved default methods
            i = 2
            g = []
            h = list(it.head)
            if h[i].t == '<':
                e = angle(h, i)
                g = h[i:e + 1]
            params = split_commas(g[1:-1])
            decl, use = [], []
            for p in params:
                eq = [k for k, t in enumerate(p) if t.t == '=']
                if eq:
                    p = p[:eq[0]]
                decl.append(flat(p))
                use.append(p[1].t if p[0].t == 'const' else p[0].t)
            d, u = ', '.join(decl), ', '.join(use)
            for lev in sorted(set(mv.values())):
                self.w('pub trait %sOps%d<%s>: %s<%s> {' % (it.name, lev, d, it.name, u))
                for f in it.items:
                    if f.kind == 'fn' and mv.get(f.name) == lev:
                        self.emit_fn(f, it.name, True)
                self.w('}')
                self.w('impl<%s, M__: %s<%s> + ?Sized> %sOps%d<%s> for M__ {}' % (d, it.name, u, it.name, lev, u))

    def emit_impl(self, it):
        key = impl_key(it)
        gen, tr, ty, wh = impl_parts(it.head)
        head = self.expand_body(it.head)
        self.w(flat(head) + ' {')
        self.ctx = dict(trait=flat(tr).replace(' ', ''), type=flat(ty).replace(' ', ''), where=flat(wh).replace(' ', ''), gen=flat(gen), key=key, fns=[f.name for f in it.items if f.kind == 'fn'])
        self.emit_extra(key)
        tn = key.split(' as ')[1].split('<')[0] if ' as ' in key else ''
        for f in it.items:
            if f.kind == 'fn':
                if tn in self.moved and f.name in self.moved[tn]:
                    self.notes.append('override %s::%s of a default method not carried over' % (key, f.name))
                    continue
                self.emit_fn(f, key, False, bool(tr))
            elif f.kind == 'const':
                self.notes.append('associated const %s::%s dropped' % (key, f.name))
            else:
                self.w(flat(self.expand_body(f.toks)))
        self.w('}')
        self.ctx = None

    def emit_extra(self, key):
        for s in self.spec.extra(key, self.ctx):
            self.w(s)

    def emit_fn(self, f, owner, in_trait, is_trait_impl=False):
        key = (owner + '::' if owner else '') + f.name
        if self.ctx is not None:
            self.ctx['sig'] = flat(self.expand_body(f.head)).replace(' ', '')
        sp = self.spec.fn(key, self.ctx)
        fn = Fn(key, f.file, f.line)
        self.fns.append(fn)
        head = self.expand_body(f.head)
        # split signature
        i = 2
        if head[i].t == '<':
            i = angle(head, i) + 1
        e = match(head, i)
        rest = head[e + 1:]
        w = None
        j = 0
        while j < len(rest):
            if rest[j].t == '<':
                j = angle(rest, j)
            elif rest[j].t in OPEN:
                j = match(rest, j)
            elif rest[j].t == 'where':
                w = j
                break
            j += 1
        ret = rest[:w] if w is not None else rest
        where = rest[w:] if w is not None else []
        pub = 'pub ' if not in_trait and not is_trait_impl else ''
        sig = pub + flat(head[:e + 1])
        if ret:
            sig += ' -> (r: %s)' % flat(ret[1:])
        if where:
            sig += ' ' + flat(where) + ('' if where[-1].t == ',' else ',')
        fn.sig = sig
        fn.binders = binders(head, f.body or [])
        fn.loopkinds = loop_kinds(f.body or [])
        fn.calls = calls(f.body or [])
        if sp:
            # a local that hides a ghost function of the same name
            for n in sorted({n for n, _ in fn.binders} & ghost_names()):
                pat = re.compile(r'(?<![\w.:@])%s(?=\s*\()' % re.escape(n))
                sp = map_spec(sp, lambda s: pat.sub('crate::g::' + n, s))
            ren = renaming(self.base.get(f.file + '|' + key, {}).get('binders', fn.binders), fn.binders)
            if ren:
                sp = rename_spec(sp, ren)
                fn.renamed = ren
        fn.has_body = f.body is not None
        body = None
        try:
            if f.body is not None:
                self.guards = bool(sp) and sp.get('guards') is not None
                body = self.expand_body(f.body)
                self.guards = False
                body = rewrite_sums(body)
        except ParseError as ex:
            self.notes.append('%s: %s' % (key, ex))
            self.stubs.add(key)
        fn.first = self.lineno()
        stub = key in self.stubs and f.body is not None
        fn.stub = stub
        if stub:
            self.w('#[verifier::external_body]')
        elif body is not None and any(t.t in ('for', 'while', 'loop') and t.k == 'id' for t in body):
            self.w('#[verifier::loop_isolation(false)]')
        if sp and sp.get('attr'):
            self.w(sp['attr'])
        self.w(sig)
        if sp:
            fn.annotated = True
            if not is_trait_impl and sp.get('requires'):
                self.w('  requires\n' + sp['requires'])
            if sp.get('ensures'):
                self.w('  ensures\n' + sp['ensures'])
        if body is None:
            self.w('  ;')
        elif stub:
            self.w('{ unimplemented!() }')
        else:
            fn.body = flat(body)
            self.w('{')
            self.w('  proof { ' + self.spec.prologue(key, head, owner, self.ctx) + ' }')
            if sp and sp.get('start'):
                self.w(sp['start'])
            tail = sp.get('tail') if sp else None
            if self.probe:      # must fail: otherwise the contracts in force are contradictory
                tail = (tail or '') + '\nproof { assert(false); }'
            self.emit_block(body, sp or {}, fn, tail)
            self.w('}')
        fn.last = self.lineno() - 1

    def emit_block(self, toks, sp, fn, tail=None, prefix=''):
        """print a body, adding annotations at loops; tail: before the final expression"""
        loops = find_loops(toks)
        # position of the final expression
        cut = len(toks)
        if tail:
            cut = tail_start(toks)
        pos = 0
        lines = []

        def put(a, b):
            if a < b:
                self.w(text(toks[a:b]))
        tail_done = False
        for n, (s, bs, be, kind, inpos) in enumerate(loops):
            lk = prefix + str(n + 1)
            L = sp.get('loops', {}).get(lk, {})
            fn.loops.append((lk, kind))
            if tail and not tail_done and cut <= s:
                put(pos, cut); self.w(tail); pos = cut; tail_done = True
            put(pos, s)
            if L.get('before'):
                self.w(L['before'])
            if kind == 'for' and L:
                it = L.get('it', 'it' + lk.replace('.', '_'))
                self.w(text(toks[s:inpos + 1]) + ' ' + it + ': ' + text(toks[inpos + 1:bs]))
            else:
                self.w(text(toks[s:bs]))
            if L.get('inv'):
                self.w('  invariant\n' + L['inv'])
            if L.get('dec'):
                self.w('  decreases ' + L['dec'])
            self.w('{')
            if L.get('start'):
                self.w(L['start'])
            self.emit_block(toks[bs + 1:be], sp, fn, None, lk + '.')
            if L.get('end'):
                self.w(L['end'])
            self.w('}')
            if L.get('after'):
                self.w(L['after'])
            pos = be + 1
        if tail and not tail_done:
            put(pos, cut); self.w(tail); put(cut, len(toks))
        else:
            put(pos, len(toks))

    def emit(self, prelude, theorems, modfilter=None):
        self.w(prelude)
        self.modfilter = modfilter
        tree = {}
        for m, its in self.mods:
            if m in SKIP_MODS or (modfilter and not modfilter(m)):
                continue
            d = tree
            for x in m:
                d = d.setdefault(x, {})
            d.setdefault('', []).extend(its)
        self.tops = set(tree)
        self.has_rms = 'RowMajorSequentialData' in self.traits and 'matrix' in self.tops
        self.emit_mod(tree, (), modfilter)
        if not modfilter:
            self.emit_macros()
        self.w(theorems)
        self.w('} // verus!\nfn main() {}')
        return '\n'.join(self.out)

    def emit_macros(self):
        """the exported size and buffer macros, each as a function: the macro's own expansion is the body"""
        self.w('pub mod sizes {\nuse vstd::prelude::*;')
        for name in sorted(self.macros):
            pat = self.spec.size_macro(name)
            if not pat:
                continue
            np, post = pat
            args = tokenize(', '.join(['a', 'b'][:np]))
            toks = expand_macro(self.macros[name], args, name)
            toks = self.expand_body(toks)
            if toks and toks[0].t == '{' and match(toks, 0) == len(toks) - 1:
                toks = toks[1:-1]
            toks = [Tok('id', 'let', t.nl, t.line) if t.t == 'const' else t for t in toks]
            if np == 2:
                toks = tokenize('proof { assert(a * b == b * a) by(nonlinear_arith); }') + toks
            self.macro_fn('sizes.rs', name, 'pub fn %s(%s) -> (r: usize)' % (name, ', '.join(['a: usize', 'b: usize'][:np])), '  requires %s <= usize::MAX\n  ensures r == %s' % (post, post), toks)
        self.w('}\npub mod statics {\nuse vstd::prelude::*;')
        for name in sorted(self.macros):
            pat = self.spec.buffer_macro(name)
            if not pat:
                continue
            np, ty, post = pat
            dims = ['A', 'B'][:np]
            for lead, last in (('', 'let'), ('', ''), ('let', ''), ('mut', ''), ('let mut', ''), ('static', ''), ('static mut', '')):
                fname = name + ('__' + (lead.replace(' ', '_') or 'plain') if not last else '')
                try:
                    toks = tokenize('%s ! ( %s buf__, %s, T, init%s )' % (name, lead, ', '.join(dims), ', ' + last if last else ''))
                    for _ in range(5):
                        k = 2 if len(toks) > 4 and toks[1].t == '::' and toks[0].t == 'crate' else 0
                        if not (len(toks) > k + 2 and toks[k + 1].t == '!' and toks[k].t in self.macros):
                            break
                        toks = expand_macro(self.macros[toks[k].t], toks[k + 3:match(toks, k + 2)], name)
                    toks = self.expand_body(toks)
                    pre, toks = self.lengths(toks)
                    toks = pre + [Tok('id', 'let', t.nl, t.line) if t.t == 'static' else t for t in toks] + tokenize(('' if toks[-1].t == ';' else ';') + ' buf__')
                except ParseError as ex:
                    self.notes.append('%s: %s' % (fname, ex))
                    continue
                gen = ', '.join('const %s: usize' % d for d in dims + ['N__'])
                self.macro_fn('statics.rs', fname, 'pub fn %s<T: Copy, %s>(init: T) -> (r: %s)' % (fname, gen, ty),
                              '  requires N__ == %s\n  ensures r.0.0@.len() == N__, forall|i: int| 0 <= i < N__ ==> #[trigger] r.0.0@[i] == init' % post, toks)
        self.w('}')

    def lengths(self, toks):
        """an array length written as `{ e }`: stable Rust has no such expression over generic parameters, so it becomes the parameter
        N__, and that e is N__ is an obligation of its own, for all dimensions"""
        pre, out, i = [], [], 0
        pre += tokenize('proof { assert(A * B == B * A) by(nonlinear_arith); }' if any(t.t == 'B' for t in toks) else '')
        while i < len(toks):
            t = toks[i]
            if t.t == '{' and i and toks[i - 1].t in (',', '<', ';'):
                e = match(toks, i)
                pre += tokenize('{ let n__: usize =') + toks[i + 1:e] + tokenize('; assert(n__ == N__); }')
                out.append(Tok('id', 'N__', 0, t.line))
                i = e + 1
                continue
            out.append(t)
            i += 1
        return pre, out

    def macro_fn(self, file, name, sig, contract, toks):
        fn = Fn(name, file, 0)
        self.fns.append(fn)
        fn.sig = sig
        fn.first = self.lineno()
        fn.annotated = fn.has_body = True
        fn.body = flat(toks)
        fn.stub = name in self.stubs
        if fn.stub:
            self.w('#[verifier::external_body]')
        self.w(sig + '\n' + contract)
        self.w('{ unimplemented!() }' if fn.stub else '{')
        if not fn.stub:
            if self.probe:
                cut = tail_start(toks)
                self.w(text(toks[:cut])); self.w('proof { assert(false); }'); self.w(text(toks[cut:]))
            else:
                self.w(text(toks))
            self.w('}')
        fn.last = self.lineno() - 1

    def emit_mod(self, tree, path, modfilter):
        if path:
            self.w('pub mod %s {' % path[-1])
        its = tree.get('', [])
        self.w('#[allow(unused_imports)] use crate::g::*; #[allow(unused_imports)] use vstd::prelude::*;')
        for k in self.moved:
            pass
        if any(i.kind in ('trait', 'impl', 'fn') for i in its):
            self.w('broadcast use {vstd::group_vstd_default};')
            if self.has_rms:
                self.w('#[allow(unused_imports)] use crate::matrix::RowMajorSequentialData as _;')
        for it in its:
            if it.kind == 'use':
                self.emit_use(it, path)
        self.emit_extra('mod ' + '::'.join(path))
        for it in its:
            k = it.kind
            if self.spec.skip(path, it):
                continue
            if k == 'struct':
                self.emit_struct(it)
            elif k == 'trait':
                self.emit_trait(it)
            elif k == 'impl':
                self.emit_impl(it)
            elif k == 'fn':
                self.emit_fn(it, '', False)
            elif k in ('type', 'const'):
                self.w('pub ' + flat(self.expand_body(it.head)) + ';')
            elif k in ('use', 'macro_rules', 'extern'):
                pass
            else:
                self.notes.append('item %s %s in %s not carried over' % (k, it.name, '::'.join(path)))
        for c in tree:
            if c:
                self.emit_mod(tree[c], path + (c,), modfilter)
        if path:
            self.w('}')


def binders(head, body):
    """names bound in a signature or body, in order, each with what binds it and how deep in blocks"""
    out, depth = [], 0
    i = 2
    if i < len(head) and head[i].t == '<':
        i = angle(head, i) + 1
    if i < len(head) and head[i].t == '(':
        for p in split_commas(head[i + 1:match(head, i)]):
            for k, t in enumerate(p):
                if t.t == ':':
                    out += [[x.t, 'p0'] for x in p[:k] if x.k == 'id' and x.t not in ('mut', 'ref')]
                    break
    i = 0
    while i < len(body):
        t = body[i]
        depth += (t.t == '{') - (t.t == '}')
        if t.k == 'id' and t.t in ('let', 'for'):
            j = i + 1
            while j < len(body) and body[j].t not in ('=', ':', 'in', ';', '<'):
                if body[j].k == 'id' and body[j].t not in ('mut', 'ref', 'Some', 'Ok', 'Err') and body[j].t[0].islower() | (body[j].t[0] == '_') | (len(body[j].t) == 1):
                    out.append([body[j].t, t.t[0] + str(depth)])
                j += 1
            i = j
            continue
        if t.t == '|' and i and body[i - 1].t in ('(', ',', '=') or t.t == '|' and i and body[i - 1].t == 'move':
            j = i + 1
            while j < len(body) and body[j].t != '|':
                if body[j].k == 'id' and body[j].t != 'mut' and body[j - 1].t != ':':
                    out.append([body[j].t, 'c' + str(depth)])
                j += 1
            i = j
        i += 1
    return out


def calls(body):
    """what a body calls, in order of the text: annotations stand between these steps"""
    out = []
    for i, t in enumerate(body[:-1]):
        if t.k == 'id' and t.t not in ('if', 'while', 'match', 'for', 'in', 'return', 'let', 'else') and (
                body[i + 1].t == '(' or body[i + 1].t == '::' and i + 2 < len(body) and body[i + 2].t == '<'):
            out.append(t.t)
    return out


def loop_kinds(toks):
    """nesting and headers of the loops: an invariant is written for one way of running over one range"""
    return [[' '.join(t.t for t in toks[s:b]), loop_kinds(toks[b + 1:e])] for s, b, e, k, p in find_loops(toks)]


def renaming(old, new):
    """the annotations speak of `old`; what are those names now?"""
    if old == new:
        return {}
    ren = {}
    on, nn = [x for x, _ in old], [x for x, _ in new]

    def pair(ps):
        for o, n in ps:
            if o not in nn and n not in on and ren.get(o, n) == n:
                ren[o] = n
    for op, a, b, c, d in difflib.SequenceMatcher(None, on, nn, autojunk=False).get_opcodes():
        if op == 'replace' and b - a == d - c:
            pair(zip(on[a:b], nn[c:d]))
        elif op == 'replace':       # more or fewer names: those bound the same way at the same depth
            for op2, a2, b2, c2, d2 in difflib.SequenceMatcher(None, [k for _, k in old[a:b]], [k for _, k in new[c:d]], autojunk=False).get_opcodes():
                if op2 == 'equal':
                    pair(zip(on[a + a2:a + b2], nn[c + c2:c + d2]))
    return ren


def rename_spec(sp, ren):
    pat = re.compile(r"(?<![\w.@])(%s)\b(?!\s*::)" % '|'.join(map(re.escape, ren)))
    # `old(self).x` is a field: only names that do not follow a dot are renamed
    return map_spec(sp, lambda s: pat.sub(lambda m: ren[m.group(1)], s))


def map_spec(v, f):
    if isinstance(v, str):
        return f(v)
    if isinstance(v, dict):
        return {k: map_spec(x, f) for k, x in v.items()}
    return v


def ghost_names(cache=[]):
    if not cache:
        t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.rs')).read()
        cache.append(set(re.findall(r'\b(?:spec|proof) fn (\w+)', t)))
    return cache[0]


def strip_attr_vis(f):
    i = 0
    while i < len(f) and f[i].t == '#':
        i = match(f, i + 1) + 1
    if i < len(f) and f[i].t == 'pub':
        i += 1
        if i < len(f) and f[i].t == '(':
            i = match(f, i) + 1
    return f[i:]


def find_loops(toks):
    """outermost loops of a body: (start, body open, body close, kind, pos of `in`)"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.t in ('for', 'while', 'loop') and not (t.t == 'for' and i + 1 < len(toks) and toks[i + 1].t == '<'):
            j, inpos = i + 1, None
            while toks[j].t != '{':
                if toks[j].t in ('(', '['):
                    j = match(toks, j)
                elif toks[j].t == 'in' and inpos is None:
                    inpos = j
                j += 1
            e = match(toks, j)
            out.append((i, j, e, t.t, inpos))
            i = e + 1
        else:
            i += 1
    return out


def tail_start(toks):
    """index where the final expression of a block starts (len if the block ends in a statement)"""
    i, last = 0, 0
    n = len(toks)
    while i < n:
        t = toks[i].t
        if t in ('(', '['):
            i = match(toks, i)
        elif t == '{':
            e = match(toks, i)
            # a block-like statement ends here unless followed by an operator/method
            if e + 1 < n and toks[e + 1].t not in ('.', '?', 'else', ')', ',', ';', '+', '-', '*', '/', '==') :
                last = e + 1
            elif e + 1 >= n:
                return last_stmt_is_block(toks, last, n)
            i = e
        elif t == ';':
            last = i + 1
        i += 1
    return last


def last_stmt_is_block(toks, last, n):
    if toks[last].t in ('for', 'while', 'loop'):
        return n
    return last


def rewrite_sums(toks):
    """`(RANGE).map(|k| EXPR).sum::<T>()` -> a loop adding from T::zero()"""
    i = 0
    toks = list(toks)
    while i < len(toks):
        if toks[i].t == '(':
            e = match(toks, i)
            if is_seq(toks, e + 1, ('.', 'map', '(', '|')):
                m = e + 3
                me = match(toks, m)
                if is_seq(toks, me + 1, ('.', 'sum', '::', '<')):
                    ae = angle(toks, me + 4)
                    if is_seq(toks, ae + 1, ('(', ')')):
                        ty = flat(toks[me + 5:ae])
                        var = toks[m + 2].t
                        if toks[m + 3].t != '|':
                            i += 1
                            continue
                        rng = toks[i + 1:e]
                        ex = toks[m + 4:me]
                        new = tokenize('{ let mut acc__ = %s::zero(); for %s in ' % (ty, var)) + [Tok('op', '(')] + rng + [Tok('op', ')')] \
                            + tokenize('{ acc__ = acc__ + (') + ex + tokenize('); } acc__ }')
                        for x in new:
                            x.nl = 0
                        toks[i:ae + 3] = new
        i += 1
    return toks
