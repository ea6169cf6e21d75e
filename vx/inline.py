"""Functions the pinned tree does not have, and which therefore have no contract: their bodies are put in place of the calls, so that
the caller is verified with the code it runs.  Only calls where that is plainly the same program are treated; a function that is
called in any other way stays as it is (and what calls it is undecided)."""
from rust import *

PRIM = {'usize', 'isize', 'bool', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'mut', 'Self'}


def generics(head, i):
    """names of the generic parameters declared in head at position i (a '<' or not)"""
    if i >= len(head) or head[i].t != '<':
        return []
    e = angle(head, i)
    out = []
    for p in split_commas(head[i + 1:e]):
        if not p:
            continue
        if p[0].t == 'const':
            out.append(p[1].t)
        elif p[0].k == 'life':
            out.append(None)
        else:
            out.append(p[0].t)
    return [g for g in out if g]


class Helper:
    def __init__(self, f, owner, ogen):
        self.f, self.owner, self.ogen, self.name = f, owner, ogen, f.name
        h = list(f.head)
        self.gen = generics(h, 2)
        i = angle(h, 2) + 1 if h[2].t == '<' else 2
        e = match(h, i)
        self.has_self, self.params, self.ok = False, [], True
        for p in split_commas(h[i + 1:e]):
            if not p:
                continue
            ids = [t.t for t in p]
            if 'self' in ids and ':' not in ids:
                self.has_self = True
                continue
            if ids[0] == 'mut':
                p, mut = p[1:], True
            else:
                mut = False
            if len(p) < 3 or p[0].k != 'id' or p[1].t != ':':
                self.ok = False
                return
            self.params.append((p[0].t, mut, p[2:]))
        b = f.body or []
        bid = [t.t for t in b]
        if f.body is None or 'return' in bid or '?' in bid or any(t.k == 'id' and t.t == self.name and k + 1 < len(b) and b[k + 1].t in ('(', '::') for k, t in enumerate(b)):
            self.ok = False


def run(mods, known):
    """known: the keys `file|owner::name` of the pinned tree.  Returns the names of what was inlined everywhere and dropped."""
    from extract import impl_key
    helpers, count = {}, {}
    for m, its in mods:
        for it in its:
            if it.kind == 'fn':
                fs, owner, og = [it], '', []
            elif it.kind in ('impl', 'trait') and it.items:
                fs = [f for f in it.items if f.kind == 'fn']
                owner = it.name if it.kind == 'trait' else impl_key(it)
                og = generics(it.head, 1 if it.kind == 'impl' else 2)
            else:
                continue
            for f in fs:
                count[f.name] = count.get(f.name, 0) + 1
                key = f.file + '|' + (owner + '::' if owner else '') + f.name
                if key not in known and f.body is not None:
                    h = Helper(f, owner, og)
                    h.it, h.key = it, key
                    helpers[f.name] = h
    helpers = {n: h for n, h in helpers.items() if h.ok and count[n] == 1}
    if not helpers:
        return []
    for _ in range(4):
        again = False
        for m, its in mods:
            for it in its:
                if it.kind == 'fn':
                    fs, og = [it], []
                elif it.kind in ('impl', 'trait') and it.items:
                    fs, og = [f for f in it.items if f.kind == 'fn'], generics(it.head, 1 if it.kind == 'impl' else 2)
                else:
                    continue
                for f in fs:
                    if f.body:
                        b = inline(f, og, helpers)
                        if b is not None:
                            f.body = b
                            again = True
        if not again:
            break
    # what is no longer called is no longer needed
    gone = []
    for n, h in helpers.items():
        used = any(t.k == 'id' and t.t == n for m, its in mods for it in its for t in toks_of(it, h.f))
        if not used:
            gone.append(h)
    for h in gone:
        for m, its in mods:
            if h.it is h.f:
                its[:] = [x for x in its if x is not h.f]
            elif h.it in its:
                h.it.items = [x for x in h.it.items if x is not h.f]
    return [h.key for h in gone]


def toks_of(it, but):
    if it is but:
        return
    if it.kind in ('impl', 'trait') and it.items:
        for f in it.items:
            if f is not but:
                yield from (f.head or [])
                yield from (f.body or [])
        return
    if it.kind == 'use':
        return
    yield from (it.head or [])
    yield from (it.body or [])


def inline(f, og, helpers):
    b, out, i, hit = f.body, [], 0, False
    scope = set(og) | set(generics(list(f.head), 2))
    while i < len(b):
        t = b[i]
        h = helpers.get(t.t) if t.k == 'id' else None
        j = i + 1
        if h is None or h.f is f or h.f.file != f.file or j >= len(b):
            out.append(t); i += 1
            continue
        turbo = None
        if b[j].t == '::' and j + 1 < len(b) and b[j + 1].t == '<':
            e = angle(b, j + 1)
            turbo = split_commas(b[j + 2:e])
            j = e + 1
        if j >= len(b) or b[j].t != '(':
            out.append(t); i += 1
            continue
        e = match(b, j)
        args = [a for a in split_commas(b[j + 1:e]) if a]
        # what stands in front of the name
        k = len(out)
        if h.has_self:
            if not (k >= 2 and out[-1].t == '.' and out[-2].t == 'self' and (k < 3 or out[-3].t not in ('.', '*', '&', 'mut'))):
                out.append(t); i += 1
                continue
            k -= 2
        else:
            if k and out[-1].t == '.':
                out.append(t); i += 1
                continue
            while k >= 2 and out[k - 1].t == '::' and out[k - 2].k == 'id':
                k -= 2
        new = body_for(h, args, turbo, scope)
        if new is None or k and out[k - 1].t == '::':
            out.append(t); i += 1
            continue
        nl = out[k].nl if k < len(out) else t.nl
        out = out[:k]
        stmt = not out or out[-1].t in (';', '{', '}')
        new = [Tok('op', '{', 0, t.line)] + new + [Tok('op', '}', 0, t.line)]
        if not stmt:
            new = [Tok('op', '(')] + new + [Tok('op', ')')]
        new[0].nl = nl
        out += new
        hit = True
        i = e + 1
    return out if hit else None


def body_for(h, args, turbo, scope):
    if len(args) != len(h.params):
        return None
    body = [Tok(t.k, t.t, t.nl, t.line) for t in h.f.body]
    # generic names of the helper that its body speaks of
    sub = {}
    for n, g in enumerate(h.gen):
        arg = turbo[n] if turbo and n < len(turbo) and len(turbo) == len(h.gen) else None
        if arg and len(arg) == 1 and arg[0].t != '_':
            sub[g] = arg[0]
    needs = {t.t for t in body if t.k == 'id'} & (set(h.gen) | set(h.ogen))
    for g in needs:
        if g in sub:
            continue
        if g not in scope:
            return None
    for k, t in enumerate(body):
        if t.k == 'id' and t.t in sub and not (k and body[k - 1].t == '.'):
            s = sub[t.t]
            body[k] = Tok(s.k, s.t, t.nl, t.line)
    names = [p[0] for p in h.params]
    clash = any(t.k == 'id' and t.t in names[:n] and not same(args[names.index(t.t)], t.t) for n, a in enumerate(args) for t in a)
    pre, post = [], []
    for n, ((p, mut, ty), a) in enumerate(zip(h.params, args)):
        ids = [t.t for t in ty if t.k == 'id']
        if same(a, p) and not mut:
            continue
        typed = all(x in PRIM or x in scope and x not in h.gen for x in ids)
        a = list(a)
        if ty[0].t == '&' and 'mut' in [t.t for t in ty[1:3]] and a[0].t != '&':
            a = tokenize('&mut *') + a
        ann = ' : ' + flat(ty) if typed and ids else ''
        if clash:
            pre += tokenize('let a%d__ = ' % n) + a + tokenize(';')
            a = tokenize('a%d__' % n)
        post += tokenize('let %s%s%s = ' % ('mut ' if mut else '', p, ann)) + [Tok(t.k, t.t, 0, t.line) for t in a] + tokenize(';')
    return pre + post + body


def same(a, p):
    return len(a) == 1 and a[0].t == p
