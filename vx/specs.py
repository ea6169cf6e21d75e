"""Annotation files: contracts, invariants and proof hints, keyed by function."""
import re, os, glob
import rules

SECT = ('requires', 'ensures', 'start', 'tail', 'attr', 'lean', 'guards')
LSECT = ('inv', 'dec', 'lstart', 'lend', 'before', 'after', 'it')


class Spec:
    def __init__(self, d):
        self.fns, self.extras, self.rules, self.pro, self.defs = {}, {}, [], {}, {}
        for f in sorted(glob.glob(os.path.join(d, '*.spec'))):
            self.read(f)
        self.used = set()

    def read(self, path):
        cur, sect, loop, keys = None, None, None, []
        for n, line in enumerate(open(path, encoding='utf-8').read().split('\n')):
            if line.startswith('@def '):
                k, _, v = line[5:].partition(' ')
                self.defs[k] = v
                continue
            line = self.subst(line)
            if line.startswith('@@@'):
                continue
            if line.startswith('@@'):
                kind, _, rest = line[2:].partition(' ')
                sect = loop = None
                if kind == 'fn':
                    cur = {'loops': {}}
                    for k in rest.split(' | '):
                        self.fns[k.strip()] = cur
                elif kind == 'extra':
                    cur = {'text': ''}
                    for k in rest.split(' | '):
                        self.extras.setdefault(k.strip(), []).append(cur)
                    sect = 'text'
                else:
                    raise ValueError('%s:%d: %s' % (path, n + 1, line))
                continue
            if line.startswith('@'):
                kind, _, rest = line[1:].partition(' ')
                if kind == 'loop':
                    a = rest.split()
                    loop = cur['loops'].setdefault(a[0], {})
                    if len(a) > 1:
                        loop['it'] = a[1]
                    sect = None
                elif kind in SECT:
                    sect = kind; loop = None
                    cur.setdefault(sect, '')
                elif kind in LSECT:
                    sect = {'lstart': 'start', 'lend': 'end'}.get(kind, kind)
                    if loop is None:
                        raise ValueError('%s:%d: no loop' % (path, n + 1))
                    loop.setdefault(sect, '')
                    if kind == 'dec':
                        loop[sect] = rest; sect = None
                else:
                    raise ValueError('%s:%d: %s' % (path, n + 1, line))
                continue
            if re.match(r'# ', line) or not line.strip():
                continue
            if sect is None:
                if line.strip():
                    raise ValueError('%s:%d: text outside a section' % (path, n + 1))
                continue
            tgt = loop if loop is not None else cur
            tgt[sect] = tgt.get(sect, '') + line + '\n'

    def subst(self, line):
        """${NAME} and ${NAME|arg|arg}: text macros (`$1`, `$2` in the definition)"""
        for _ in range(20):
            m = re.search(r'\$\{([A-Z_0-9]+)((?:\|[^}]*)?)\}', line)
            if not m:
                return line
            t = self.defs[m.group(1)]
            for k, a in enumerate(m.group(2)[1:].split('|')):
                t = t.replace('$%d' % (k + 1), a)
            line = line[:m.start()] + t + line[m.end():]
        raise ValueError('macro loop: ' + line)

    def fn(self, key, ctx=None):
        if key in self.fns:
            self.used.add(key)
            return self.fns[key]
        r = rules.fn_rule(key, ctx)
        return r

    def extra(self, key, ctx=None):
        if key in self.extras:
            return [c['text'] for c in self.extras[key]]
        return rules.extra_rule(key, ctx)

    def size_macro(self, name):
        d = rules.MACROS.get(name[12:]) if name.startswith('size_buffer_') else None
        if not d:
            return None
        n, ty, r, c = d
        return n, '%s * %s' % (r, c)

    def buffer_macro(self, name):
        d = rules.MACROS.get(name[12:]) if name.startswith('impl_buffer_') else None
        if not d:
            return None
        n, ty, r, c = d
        v = {'a': 'A', 'b': 'B', '1': '1'}
        dims = ', '.join(v[x] for x in ('a', 'b')[:n])
        return n, 'crate::buffers::types::%s<%s, T, crate::matrix::MatrixDataArray<%s, %s, N__, T>>' % (ty, dims, v[r], v[c]), '%s * %s' % (v[r], v[c])

    def prologue(self, key, head, owner, ctx=None):
        p = '' if 'lean' in self.fns.get(key, {}) else 'broadcast use {crate::g::ix_inj, crate::g::ix_bound, crate::g::idx_succ}; '
        p += 'order_deps();'
        ids = [t.t for t in head]
        for tv in ('T',):
            w = (',' + ctx['where'][5:] + ',' + ctx['gen'].replace(' ', '')) if ctx else ''
            if re.search(r'[,<]%s:MatrixDataType\b' % tv, w) or any(ids[i] == tv and i + 2 < len(ids) and ids[i + 1] == ':' and ids[i + 2] == 'MatrixDataType' for i in range(len(ids))):
                p += ' %s::laws();' % tv
        return p

    def skip(self, path, it):
        if path == ('matrix', 'data_type'):
            return not (it.kind == 'trait' and it.name == 'MatrixDataType')
        return False
