"""A small Rust tokenizer and item parser: enough of the grammar to cut a crate into
items and functions mechanically, keeping every token of every body."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:[^"\\]|\\(?:.|\n))*")
 |(?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>0[xX][0-9a-fA-F_]+[a-zA-Z0-9_]*|[0-9][0-9_]*[eE][+-]?[0-9_]+(?:f32|f64)?|[0-9][0-9a-zA-Z_]*(?:\.(?![.A-Za-z_])[0-9_]*(?:[eE][+-]?[0-9_]+)?[a-zA-Z0-9_]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}])
''', re.X)


class Tok:
    __slots__ = ('k', 't', 'nl', 'line')

    def __init__(self, k, t, nl=0, line=0):
        self.k, self.t, self.nl, self.line = k, t, nl, line

    def __repr__(self):
        return self.t


class ParseError(Exception):
    pass


def tokenize(src):
    out, i, n, line, nl = [], 0, len(src), 1, 0
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise ParseError('cannot tokenize at line %d: %r' % (line, src[i:i + 20]))
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        t = m.group(0)
        if k == 'bc':
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith('/*', j):
                    depth += 1; j += 2
                elif src.startswith('*/', j):
                    depth -= 1; j += 2
                else:
                    j += 1
            c = src[i:j].count('\n')
            line += c; nl = nl or c
            i = j
            continue
        if k == 'ws':
            c = t.count('\n'); nl += c; line += c
        elif k == 'lc':
            pass
        else:
            out.append(Tok(k, t, nl, line)); nl = 0
            line += t.count('\n')
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(')]}')


def match(toks, i):
    """index of the closing bracket for the opening bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == 'op':
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise ParseError('unbalanced bracket')


def angle(toks, i):
    """index of the '>' that closes the '<' at i (generics position); splits '>>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if t == '<':
            d += 1
        elif t == '>':
            d -= 1
        elif t == '>>':
            toks[j:j + 1] = [Tok('op', '>', toks[j].nl, toks[j].line), Tok('op', '>', 0, toks[j].line)]
            continue
        elif t in OPEN:
            j = match(toks, j)
        if d == 0:
            return j
        j += 1
    raise ParseError('unbalanced <')


NOSP_AFTER = set('( [ . :: & ! # $'.split()) | {'&'}
NOSP_BEFORE = set(') ] . , ; :: ? :'.split())


def text(toks):
    out = []
    prev = None
    for t in toks:
        if t.nl and prev is not None:
            out.append('\n')
        elif prev is not None:
            if prev.t in ('.', '::') or t.t in ('.', '::', ',', ';', ')', ']', '?') or prev.t in ('(', '['):
                pass
            elif prev.t == '&' and t.k in ('id', 'life'):
                pass
            elif t.t in ('(', '[') and (prev.k == 'id' or prev.t in (')', ']', '>')) and prev.t not in (
                    'in', 'return', 'if', 'while', 'match', 'else', '='):
                pass
            elif prev.t == '!' or prev.t == '#':
                pass
            elif t.t == '!' and prev.k == 'id':
                pass
            else:
                out.append(' ')
        out.append(t.t)
        prev = t
    return ''.join(out)


def flat(toks):
    return text([Tok(t.k, t.t) for t in toks])


class Item:
    def __init__(self, **kw):
        self.attrs = []; self.vis = ''; self.kind = ''; self.name = ''
        self.head = []; self.body = None; self.items = None; self.line = 0
        self.__dict__.update(kw)


def split_commas(toks):
    out, cur, d, i = [], [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.t in OPEN:
            j = match(toks, i)
            cur += toks[i:j + 1]; i = j + 1
            continue
        if t.t == ',':
            out.append(cur); cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


def parse_attr(toks, i):
    j = i + 1
    inner = False
    if toks[j].t == '!':
        inner = True; j += 1
    e = match(toks, j)
    return toks[j + 1:e], e + 1, inner


def eval_cfg(toks, feats):
    """toks: the inside of cfg(...)"""
    if toks[0].t in ('all', 'any', 'not') and len(toks) > 1 and toks[1].t == '(':
        parts = split_commas(toks[2:match(toks, 1)])
        vals = [eval_cfg(p, feats) for p in parts]
        return {'all': all, 'any': any, 'not': lambda v: not v[0]}[toks[0].t](vals)
    if toks[0].t == 'feature':
        return toks[2].t.strip('"') in feats
    if toks[0].t == 'debug_assertions':
        return 'release__' not in feats
    if toks[0].t in ('unix', 'true'):
        return True
    if toks[0].t.startswith('target_') and len(toks) > 2:
        return toks[2].t.strip('"') in ('64', 'x86_64', 'linux', 'gnu', 'little', 'unix', 'ptr')
    return False


def attrs_active(attrs, feats):
    for a in attrs:
        if a and a[0].t == 'cfg':
            if not eval_cfg(a[2:-1], feats):
                return False
    return True


def parse_items(toks, feats, in_impl=False):
    """parse a token list into items; items whose cfg is off are dropped"""
    items, i, n = [], 0, len(toks)
    while i < n:
        attrs = []
        while i < n and toks[i].t == '#':
            a, i, inner = parse_attr(toks, i)
            if not inner:
                attrs.append(a)
        if i >= n:
            break
        start = i
        line = toks[i].line
        vis = ''
        if toks[i].t == 'pub':
            vis = 'pub'; i += 1
            if toks[i].t == '(':
                i = match(toks, i) + 1
        it = Item(attrs=attrs, vis=vis, line=line)
        q = i
        while toks[q].t in ('const', 'unsafe', 'async', 'extern', 'default') and (
                toks[q + 1].t in ('fn', 'unsafe', 'trait', 'impl', 'async', 'extern', 'const') or toks[q + 1].k == 'str'):
            q += 1
            if toks[q].k == 'str':
                q += 1
        kw = toks[q].t
        it.quals = [t.t for t in toks[i:q]]
        if kw == 'fn':
            it.kind = 'fn'; it.name = toks[q + 1].t
            j = q
            while toks[j].t not in ('{', ';'):
                if toks[j].t in ('(', '['):
                    j = match(toks, j)
                j += 1
            it.head = toks[q:j]
            if toks[j].t == '{':
                e = match(toks, j)
                it.body = toks[j + 1:e]
                i = e + 1
            else:
                i = j + 1
        elif kw in ('trait', 'impl') and toks[q].k == 'id':
            it.kind = kw
            j = q
            while toks[j].t != '{':
                if toks[j].t in ('(', '['):
                    j = match(toks, j)
                j += 1
            it.head = toks[q:j]
            it.name = toks[q + 1].t if kw == 'trait' else ''
            e = match(toks, j)
            inside = toks[j + 1:e]
            i = e + 1
            if attrs_active(attrs, feats):
                it.items = parse_items(inside, feats, True)
        elif kw in ('struct', 'enum', 'union'):
            it.kind = kw; it.name = toks[q + 1].t
            j = q
            while toks[j].t not in (';', '{'):
                if toks[j].t in ('(', '['):
                    j = match(toks, j)
                j += 1
            if toks[j].t == '{':
                e = match(toks, j)
                it.head = toks[q:j]; it.body = toks[j + 1:e]; it.style = 'brace'
                i = e + 1
            else:
                it.head = toks[q:j]; it.style = 'tuple'
                i = j + 1
        elif kw == 'mod':
            it.kind = 'mod'; it.name = toks[q + 1].t
            if toks[q + 2].t == '{':
                e = match(toks, q + 2)
                i = e + 1
                if attrs_active(attrs, feats):
                    it.items = parse_items(toks[q + 3:e], feats)
            else:
                i = q + 3
        elif kw == 'macro_rules' and toks[q + 1].t == '!':
            it.kind = 'macro_rules'; it.name = toks[q + 2].t
            e = match(toks, q + 3)
            it.body = toks[q + 4:e]
            i = e + 1
            if i < n and toks[i].t == ';':
                i += 1
        elif kw in ('use', 'type', 'const', 'static', 'extern'):
            it.kind = kw; it.name = toks[q + 1].t
            j = q
            while toks[j].t != ';':
                if toks[j].t in OPEN:
                    j = match(toks, j)
                j += 1
            it.head = toks[q:j]
            i = j + 1
        elif toks[q].k == 'id' and toks[q + 1].t == '!':
            it.kind = 'maccall'; it.name = kw
            e = match(toks, q + 2)
            it.body = toks[q + 3:e]
            i = e + 1
            if i < n and toks[i].t == ';':
                i += 1
        else:
            raise ParseError('item not understood at line %d: %s' % (line, flat(toks[start:start + 12])))
        it.toks = toks[start:i]
        if attrs_active(attrs, feats):
            items.append(it)
    return items


# ---------------------------------------------------------------- macro_rules

FRAGS = ('ident', 'expr', 'ty', 'tt', 'literal', 'path', 'block', 'pat', 'lifetime', 'vis')


def parse_macro(body):
    arms, i = [], 0
    while i < len(body):
        e = match(body, i)
        pat = body[i + 1:e]
        assert body[e + 1].t == '=>', 'macro arm'
        f = match(body, e + 2)
        arms.append((pat, body[e + 3:f]))
        i = f + 1
        if i < len(body) and body[i].t == ';':
            i += 1
    return arms


def expand_macro(arms, args, name=''):
    for pat, out in arms:
        b = match_pat(pat, args)
        if b is None:
            continue
        res, i = [], 0
        while i < len(out):
            t = out[i]
            if t.t == '$' and out[i + 1].t == 'crate':
                res.append(Tok('id', 'crate', t.nl, t.line)); i += 2
            elif t.t == '$' and out[i + 1].t in b:
                kind, v = b[out[i + 1].t]
                v = [Tok(x.k, x.t, 0, t.line) for x in v]
                if v:
                    v[0].nl = t.nl
                if kind == 'expr' and len(v) > 1:
                    v = [Tok('op', '(')] + v + [Tok('op', ')')]
                res += v; i += 2
            elif t.t == '$' and out[i + 1].t == '(' and out[i + 2].t == '$' and out[i + 3].t in b and b[out[i + 3].t][0] == 'rep' and out[i + 4].t == ')' and out[i + 5].t in ('*', '+'):
                res += [Tok(x.k, x.t, 0, t.line) for x in b[out[i + 3].t][1]]
                i += 6
            elif t.t == '$':
                raise ParseError('macro %s: repetition not supported' % name)
            else:
                res.append(Tok(t.k, t.t, t.nl, t.line)); i += 1
        return res
    raise ParseError('no arm of macro %s matches' % name)


def match_pat(pat, args):
    b, i, j = {}, 0, 0
    while i < len(pat):
        t = pat[i]
        if t.t == '$' and pat[i + 1].t == '(' and i + 7 < len(pat) + 1 and pat[i + 2].t == '$' and pat[i + 5].t == 'tt':
            if match(pat, i + 1) + 2 != len(pat):
                return None
            name = pat[i + 3].t
            if pat[-1].t == '+' and j >= len(args):
                return None
            b[name] = ('rep', args[j:])
            j, i = len(args), len(pat)
        elif t.t == '$':
            if i + 3 >= len(pat) + 0 and not (i + 3 == len(pat) or i + 3 < len(pat)):
                return None
            name, kind = pat[i + 1].t, pat[i + 3].t
            i += 4
            if kind not in FRAGS:
                return None
            if kind in ('ident', 'tt', 'literal', 'lifetime'):
                if j >= len(args):
                    return None
                if kind == 'ident' and args[j].k != 'id':
                    return None
                if kind == 'tt' and args[j].t in OPEN:
                    e = match(args, j)
                    b[name] = (kind, args[j:e + 1]); j = e + 1
                else:
                    b[name] = (kind, [args[j]]); j += 1
            else:
                stop = pat[i].t if i < len(pat) else None
                s = j
                while j < len(args) and args[j].t != stop and args[j].t not in (',', ';', '=>'):
                    if args[j].t in OPEN:
                        j = match(args, j)
                    elif kind == 'ty' and args[j].t == '<':
                        j = angle(args, j)
                    j += 1
                if s == j:
                    return None
                b[name] = (kind, args[s:j])
        else:
            if j >= len(args) or args[j].t != t.t:
                return None
            i += 1; j += 1
    return b if j == len(args) else None


# ---------------------------------------------------------------- crate loading

def load(src_dir, fs_read, rel, feats, modpath=()):
    """returns a list of (modpath, [Item]) for the module file rel and its children,
    in order; children with cfg off are dropped"""
    toks = tokenize(fs_read(src_dir + '/' + rel))
    return load_items(parse_items(toks, feats), src_dir, fs_read, rel, feats, modpath)


def load_items(items, src_dir, fs_read, rel, feats, modpath):
    import os
    own, out = [], []
    for it in items:
        it.file = rel
        for s in it.items or []:
            s.file = rel
        if it.kind == 'mod':
            if it.items is not None:
                out += load_items(it.items, src_dir, fs_read, rel, feats, modpath + (it.name,))
            else:
                d = os.path.dirname(rel)
                base = os.path.basename(rel)[:-3]
                if base not in ('lib', 'mod', 'main'):
                    d = os.path.join(d, base)
                for c in (os.path.join(d, it.name + '.rs'), os.path.join(d, it.name, 'mod.rs')):
                    if os.path.exists(src_dir + '/' + c):
                        out += load(src_dir, fs_read, c, feats, modpath + (it.name,))
                        break
                else:
                    raise ParseError('module file not found: ' + it.name)
        else:
            own.append(it)
    return [(modpath, own)] + out
