"""Mechanical extraction of Rust items from /repo's current source.

A small, complete Rust lexer plus an item finder.  Nothing here understands the
meaning of the code: items are cut out by byte range, contracts are spliced in
at structural positions (signature, k-th loop, function start, before the k-th
occurrence of a token sequence) and a *listed* set of rewrites is applied.
"""
import re

class LostAnchor(Exception):
    """An item or an anchor a contract is attached to is not in the source any more."""

ID = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9a-zA-Z_]*)?(?:[eE][+-]?[0-9_]+)?')
PUNCT = ['..=', '...', '<<=', '>>=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=',
         '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']

class Tok:
    __slots__ = ('k', 't', 's', 'e')
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return f'{self.k}:{self.t!r}'

def lex(src, keep_comments=False):
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            if keep_comments:
                out.append(Tok('comment', src[i:j], i, j))
            i = j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1; j += 2
                elif src.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            if keep_comments:
                out.append(Tok('comment', src[i:j], i, j))
            i = j
            continue
        m = re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(src, i)
        if m and (m.group(0)[0] in 'bcr"#') and not (m.group(0)[0] == '#'):
            pre = m.group(0)
            raw = 'r' in pre.split('#')[0].split('"')[0]
            if raw:
                close = '"' + m.group(1)
                j = src.find(close, m.end())
                j = n if j < 0 else j + len(close)
                out.append(Tok('str', src[i:j], i, j)); i = j
                continue
            elif not m.group(1):
                j = m.end()
                while j < n and src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
                out.append(Tok('str', src[i:j], i, j)); i = j
                continue
        m = re.compile(r"b?'(?:\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'").match(src, i)
        if m:
            out.append(Tok('char', m.group(0), i, m.end())); i = m.end()
            continue
        m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
        if m:
            out.append(Tok('life', m.group(0), i, m.end())); i = m.end()
            continue
        m = ID.match(src, i)
        if m:
            out.append(Tok('id', m.group(0), i, m.end())); i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            t = m.group(0)
            # `0..4`: do not swallow the range operator
            if '.' in t and src.startswith('..', i + t.index('.')):
                t = t[:t.index('.')]
            out.append(Tok('num', t, i, i + len(t))); i += len(t)
            continue
        for p in PUNCT:
            if src.startswith(p, i):
                out.append(Tok('p', p, i, i + len(p))); i += len(p)
                break
        else:
            out.append(Tok('p', c, i, i + 1)); i += 1
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}

def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    while i < len(toks):
        t = toks[i].t if toks[i].k == 'p' else None
        if t in ('(', '[', '{'):
            d += 1
        elif t in (')', ']', '}'):
            d -= 1
            if d == 0:
                return i
        i += 1
    raise LostAnchor('unbalanced brackets')

def norm(ts):
    return ' '.join(t.t for t in ts)

class Item:
    """kind: fn/struct/enum/impl/const/mod/trait/use/type/other; header tokens; body tokens range"""
    def __init__(self, file, toks, a, h, b, kind, name):
        self.file, self.toks = file, toks
        self.a = a        # first token (incl. attributes)
        self.h = h        # first token after attributes
        self.b = b        # last token (inclusive)
        self.kind, self.name = kind, name
        self.body = None  # (open, close) token indices
    def __repr__(self):
        return f'<{self.kind} {self.name}>'

KW = {'fn', 'struct', 'enum', 'impl', 'const', 'static', 'mod', 'trait', 'use', 'type', 'macro_rules', 'extern', 'union'}

def parse_items(file, toks, i, end):
    items = []
    while i < end:
        a = i
        while i < end and toks[i].t == '#':
            i += 1
            if toks[i].t == '!':
                i += 1
            i = match_close(toks, i) + 1
        if i >= end:
            break
        h = i
        # visibility and qualifiers
        if toks[i].t == 'pub':
            i += 1
            if toks[i].t == '(':
                i = match_close(toks, i) + 1
        while toks[i].t in ('unsafe', 'async', 'default') or (toks[i].t == 'const' and toks[i + 1].t in ('fn', 'unsafe')) \
                or (toks[i].t == 'extern' and toks[i + 1].k == 'str'):
            i += 2 if toks[i].t == 'extern' else 1
        kw = toks[i].t
        if kw not in KW:
            # macro invocation or unknown: skip to ; or balanced braces
            j = i
            while j < end and toks[j].t not in (';', '{', '(', '['):
                j += 1
            if j < end and toks[j].t != ';':
                br = toks[j].t
                j = match_close(toks, j)
                if br != '{' and j + 1 < end and toks[j + 1].t == ';':
                    j += 1
            it = Item(file, toks, a, h, min(j, end - 1), 'macro', norm(toks[i:min(j, i + 6)]))
            if toks[h].k == 'id' and toks[h+1].t == '!':
                o = h + 2
                if toks[o].t in OPEN:
                    it.body = (o, match_close(toks, o))
            items.append(it)
            i = j + 1
            continue
        name = toks[i + 1].t if i + 1 < end else ''
        j = i
        bodyopen = None
        if kw == 'macro_rules':
            while toks[j].t not in OPEN: j += 1
            bodyopen = j
            j = match_close(toks, j)
            if j + 1 < end and toks[j+1].t == ';': j += 1
        else:
            while j < end:
                t = toks[j].t
                if t == ';' and toks[j].k == 'p':
                    break
                if t in ('(', '[') and toks[j].k == 'p':
                    j = match_close(toks, j) + 1
                    continue
                if t == '{' and toks[j].k == 'p':
                    bodyopen = j
                    j = match_close(toks, j)
                    if kw in ('const', 'static', 'use', 'type'):
                        j += 1
                        continue
                    break
                j += 1
        if kw == 'impl' or kw == 'trait':
            name = norm(toks[i:bodyopen]) if bodyopen else norm(toks[i:j])
        it = Item(file, toks, a, h, min(j, end - 1), kw, name)
        if bodyopen is not None:
            it.body = (bodyopen, match_close(toks, bodyopen))
        items.append(it)
        i = j + 1
    return items

class Source:
    def __init__(self, path, text=None):
        self.path = path
        self.src = open(path).read() if text is None else text
        self.toks = lex(self.src)
        self.items = parse_items(self, self.toks, 0, len(self.toks))
    def children(self, item):
        o, c = item.body
        return parse_items(self, self.toks, o + 1, c)
    def line(self, off):
        return self.src.count('\n', 0, off) + 1
    def text(self, item, with_attrs=False):
        return self.src[self.toks[item.a if with_attrs else item.h].s:self.toks[item.b].e]
    def find(self, path):
        """path: list of 'kind name' segments; impl headers compared token-wise, ignoring whitespace"""
        items = self.items
        cur = None
        for depth, seg in enumerate(path):
            kind = re.match(r'\w+', seg.strip()).group(); name = seg.strip()[len(kind):]
            want = norm(lex(seg)) if kind in ('impl', 'trait') else name.strip()
            hits = [x for x in items if x.kind == kind and
                    (x.name == want or (kind == 'trait' and x.name.split()[1] == name.strip()))]
            if kind == 'impl' and not hits:
                # tolerate where clauses
                hits = [x for x in items if x.kind == 'impl' and x.name.split(' where ')[0].strip() == want]
            if not hits:
                raise LostAnchor(f'{self.path}: no item `{" / ".join(path[:depth+1])}`')
            if depth + 1 < len(path):
                # several impl blocks may carry the same header: search all
                nxt = []
                for h in hits:
                    nxt += self.children(h)
                items = nxt
                cur = hits[0]
                self._parents = hits
            else:
                cur = hits[0]
        # parent impl for the last segment
        if len(path) > 1:
            for h in self._parents:
                o, c = h.body
                if o < cur.h < c:
                    cur.parent = h
        return cur

def find_loops(toks, o, c):
    """(kw_index, body_open, body_close, label_index or None) for every loop between tokens o..c"""
    res = []
    i = o + 1
    while i < c:
        t = toks[i]
        if t.k == 'id' and t.t in ('for', 'while', 'loop'):
            prev = toks[i - 1].t
            if t.t == 'for' and toks[i + 1].t == '<':
                i += 1
                continue
            if t.t == 'for' and prev not in (';', '{', '}', ':', '=>', ')', '=', ','):
                i += 1
                continue
            j = i + 1
            if t.t == 'while' and toks[j].t == 'let':
                d = 0
                while not (toks[j].t == '=' and d == 0):
                    if toks[j].t in ('(', '[', '{'): d += 1
                    elif toks[j].t in (')', ']', '}'): d -= 1
                    j += 1
            if t.t == 'for':
                d = 0
                while not (toks[j].t == 'in' and toks[j].k == 'id' and d == 0):
                    if toks[j].t in ('(', '[', '{'): d += 1
                    elif toks[j].t in (')', ']', '}'): d -= 1
                    j += 1
            while not (toks[j].t == '{' and toks[j].k == 'p'):
                if toks[j].t in ('(', '['):
                    j = match_close(toks, j)
                j += 1
            res.append((i, j, match_close(toks, j)))
        i += 1
    return res
