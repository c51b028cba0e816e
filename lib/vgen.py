"""Generates one Verus file from a unit template + /repo's current source, runs Verus, maps failures back."""
import os, re, subprocess, json, time, hashlib
from rsx import Source, LostAnchor, lex, norm, match_close, find_loops, Tok

REPO = os.environ.get('VERIF_REPO', '/repo')
VERUS_ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.98.1-x86_64-unknown-linux-gnu')

GLOBAL_REWRITES = [
    (r'\bpub\s*\(\s*(?:crate|super|in [\w:]+)\s*\)', 'pub', 'visibility `pub(crate)`/`pub(super)` printed as `pub`'),
]

class Ex:
    """one //@extract block"""
    def __init__(self, file, path, lineno):
        self.file, self.path, self.lineno = file, path, lineno
        self.ret = None
        self.spec = ''
        self.loops = {}
        self.iters = {}
        self.at = []          # (where, text)
        self.rewrites = []    # (regex, repl, optional)
        self.header = None
        self.attrs = ''
        self.rename = None
        self.trusted = False
        self.keep_attrs = False
        self.nloops = None

def parse_template(text):
    """-> list of ('raw', text) | ('ex', Ex)"""
    parts, cur, raw = [], None, []
    section, buf = None, []
    def close_section():
        nonlocal section, buf
        if cur is None or section is None:
            buf = []
            return
        body = '\n'.join(buf)
        k, a = section
        if k == 'spec': cur.spec = body
        elif k == 'loop': cur.loops[int(a)] = body
        elif k == 'at': cur.at.append((a, body))
        elif k == 'attrs': cur.attrs = body
        buf = []
        section = None
    for no, line in enumerate(text.split('\n'), 1):
        s = line.strip()
        if s.startswith('//@'):
            d, _, a = s[3:].strip().partition(' ')
            a = a.strip()
            if d == 'extract':
                parts.append(('raw', '\n'.join(raw))); raw = []
                f, _, p = a.partition(' : ')
                cur = Ex(f.strip(), [x.strip() for x in p.split(' / ')], no)
                continue
            if cur is None:
                raise SystemExit(f'template line {no}: {s}')
            close_section()
            if d == 'end':
                parts.append(('ex', cur)); cur = None
            elif d == 'ret': cur.ret = a
            elif d in ('spec', 'loop', 'at', 'attrs'): section = (d, a)
            elif d == 'iter':
                k, n = a.split()
                cur.iters[int(k)] = n
            elif d == 'rewrite':
                x, y = a.split(' ==> ', 1) if ' ==> ' in a else (a.replace(' ==>', ''), '')
                cur.rewrites.append((x, y, False))
            elif d == 'rewrite?':
                x, y = a.split(' ==> ', 1) if ' ==> ' in a else (a.replace(' ==>', ''), '')
                cur.rewrites.append((x, y, True))
            elif d == 'header': cur.header = a
            elif d == 'rename': cur.rename = a
            elif d == 'trusted': cur.trusted = True
            elif d == 'keep-attrs': cur.keep_attrs = True
            else:
                raise SystemExit(f'template line {no}: unknown directive {d}')
        elif cur is not None:
            buf.append(line)
        else:
            raw.append(line)
    parts.append(('raw', '\n'.join(raw)))
    return parts

class Gen:
    def __init__(self, unit, template_path, vacuity=False):
        self.unit = unit
        self.tpath = template_path
        self.vacuity = vacuity
        self.sources = {}
        self.out = []          # output chunks
        self.linemap = {}      # out line -> (file, src line)
        self.fns = []          # dict(name, file, line, spec)
        self.dropped = []      # rewrites applied
        self.shape = {}        # fn -> shape signature (loops, callees)
        self.lost = []
        self.vac_lines = {}    # out line of assert(false) -> label

    def source(self, f):
        if f not in self.sources:
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                raise LostAnchor(f'{f}: file is gone')
            self.sources[f] = Source(p)
        return self.sources[f]

    def emit(self, text, file=None, line=None):
        """append text; if file given, map each output line"""
        if not hasattr(self, '_l'):
            self._l = 1
        if file:
            l = line
            for k, ch in enumerate(text.split('\n')):
                self.linemap.setdefault(self._l + k, (file, l + k))
        self._l += text.count('\n')
        self.out.append(text)

    def generate(self):
        for kind, p in parse_template(open(self.tpath).read()):
            if kind == 'raw':
                self.emit(p + '\n')
            else:
                try:
                    self.extract(p)
                except LostAnchor as e:
                    self.lost.append(f'{" / ".join(p.path)}: {e}')
        t = ''.join(self.out)
        if self.vacuity:
            t = re.sub(r'verus!\s*\{', 'verus!{ pub uninterp spec fn vac_flag(k: int) -> bool;', t, count=1)
        return t

    def extract(self, ex):
        S = self.source(ex.file)
        it = S.find(ex.path)
        toks = S.toks
        src = S.src
        ins = []   # (offset, order, text)
        rep = []   # (s, e, text)
        start_tok = it.a if ex.keep_attrs else it.h
        s0, e0 = toks[start_tok].s, toks[it.b].e
        label = ' / '.join(ex.path)
        if it.kind == 'fn' and it.body:
            o, c = it.body
            if ex.ret:
                # name the return value
                d, arrow, where = 0, None, None
                for i in range(it.h, o):
                    t = toks[i]
                    if t.k == 'p' and t.t in ('(', '['): d += 1
                    elif t.k == 'p' and t.t in (')', ']'): d -= 1
                    elif d == 0 and t.t == '->' and arrow is None: arrow = i
                    elif d == 0 and t.t == 'where' and t.k == 'id': where = i
                if arrow is None:
                    raise LostAnchor('no return type any more')
                endret = (where if where is not None else o)
                ins.append((toks[arrow].e, 0, f' ({ex.ret}:'))
                ins.append((toks[endret - 1].e, 9, ')'))
            if ex.spec.strip():
                ins.append((toks[o].s, 5, '\n' + ex.spec + '\n'))
            loops = find_loops(toks, o, c)
            self.shape[label] = self.fn_shape(toks, o, c, loops)
            for k, body in ex.loops.items():
                if k >= len(loops):
                    raise LostAnchor(f'loop {k} is gone ({len(loops)} loops)')
                ins.append((toks[loops[k][1]].s, 0, '\n' + body + '\n'))
            for k, nm in ex.iters.items():
                if k >= len(loops) or toks[loops[k][0]].t != 'for':
                    raise LostAnchor(f'loop {k} is no `for` loop any more')
                d = 0
                j = loops[k][0] + 1
                while not (toks[j].t == 'in' and d == 0):
                    if toks[j].t in ('(', '[', '{'): d += 1
                    elif toks[j].t in (')', ']', '}'): d -= 1
                    j += 1
                ins.append((toks[j].e, 0, f' {nm}:'))
            for where, body in ex.at:
                off, order = self.anchor(S, it, loops, where)
                ins.append((off, order, '\n' + body + '\n'))
            if self.vacuity == 'fn' and not ex.trusted:
                ins.append((toks[o].e, -1, f'/*VAC {label}*/ assert(!vac_flag({self._vk()}));'))
            if self.vacuity == 'loop' and not ex.trusted:
                for k in range(len(loops)):
                    ins.append((toks[loops[k][1]].e, -1, f'/*VAC {label} loop {k}*/ assert(!vac_flag({self._vk()}));'))
            if ex.rename:
                for i in range(it.h, o):
                    if toks[i].t == 'fn':
                        rep.append((toks[i + 1].s, toks[i + 1].e, ex.rename))
                        break
            self.fns.append(dict(fn=label, file=ex.file, line=S.line(toks[it.h].s), end=S.line(toks[it.b].e),
                                 trusted=ex.trusted, loops=len(loops)))
        # rewrites
        for rx, rp, opt in ex.rewrites:
            r = re.compile(rx, re.S)
            n = 0
            for m in r.finditer(src, s0, e0):
                rep.append((m.start(), m.end(), m.expand(rp).replace('\\\\n', '\n')))
                n += 1
            if n == 0 and not opt:
                raise LostAnchor(f'rewrite /{rx}/ matches nothing')
            if n:
                self.dropped.append(f'{label}: /{rx}/ -> {rp or "(dropped)"} x{n}')
        for rx, rp, why in GLOBAL_REWRITES:
            for m in re.finditer(rx, src[s0:e0]):
                a, b = s0 + m.start(), s0 + m.end()
                if not any(x < b and a < y for x, y, _ in rep):
                    rep.append((a, b, rp))
        # format!(...) -> shim_format()
        i = start_tok
        while i <= it.b:
            if toks[i].t == 'format' and toks[i + 1].t == '!':
                j = match_close(toks, i + 2)
                a, b = toks[i].s, toks[j].e
                if not any(x < b and a < y for x, y, _ in rep):
                    rep.append((a, b, 'shim_format()'))
                    self.dropped.append(f'{label}: format!(..) -> shim_format() (message text unconstrained)')
                i = j
            i += 1
        # private items and fields are printed `pub` (specifications of other items mention them)
        if it.kind in ('struct', 'enum') and toks[it.h].t in ('struct', 'enum'):
            ins.append((toks[it.h].s, -9, 'pub '))
        if it.kind == 'struct':
            d = 0
            for i in range(it.h, it.b + 1):
                t = toks[i]
                if t.t in ('{', '(', '[', '<'): d += 1
                elif t.t in ('}', ')', ']', '>'): d -= 1
                elif d == 1 and t.k == 'id' and toks[i + 1].t == ':' and toks[i + 2].t != ':' and toks[i - 1].t in ('{', ',', ']'):
                    ins.append((t.s, 0, 'pub '))
        # let chains: `if A && let P = E { B }` (no else) -> `if A { if let P = E { B } }`, the same by definition
        if it.kind == 'fn' and it.body:
            for i in range(it.body[0], it.body[1]):
                if toks[i].t == 'if' and toks[i].k == 'id':
                    amp, haslet, d, j = [], toks[i + 1].t == 'let', 0, i + 1
                    while j < it.body[1]:
                        t = toks[j].t
                        if t in ('(', '['): d += 1
                        elif t in (')', ']'): d -= 1
                        elif t == '{' and d == 0: break
                        elif t == '{': j = match_close(toks, j)
                        elif t == '&&' and d == 0:
                            amp.append(j)
                            haslet = haslet or toks[j + 1].t == 'let'
                        j += 1
                    if haslet and amp:
                        e = match_close(toks, j)
                        if toks[e + 1].t == 'else' or toks[i - 1].t == 'else':
                            continue
                        for k in amp:
                            rep.append((toks[k].s, toks[k].e, '{ if'))
                        ins.append((toks[e].e, 7, ' }' * len(amp)))
                        self.dropped.append(f'{label}: let chain printed as nested `if`s')
        # attributes inside the item (enum variants, statements) are kept only if keep_attrs
        if not ex.keep_attrs:
            i = start_tok
            while i <= it.b:
                if toks[i].t == '#' and toks[i + 1].t == '[':
                    j = match_close(toks, i + 1)
                    rep.append((toks[i].s, toks[j].e, ''))
                    i = j
                i += 1
        # parent impl header
        parent = getattr(it, 'parent', None)
        self.emit(f'// ---- {ex.file}:{S.line(s0)} {label}\n')
        close = ''
        if it.kind == 'fn' and (parent is not None or ex.header):
            hdr = ex.header or src[toks[parent.h].s:toks[parent.body[0]].s].strip()
            if hdr != 'none':
                self.emit(hdr + ' {\n')
                close = '}\n'
        if ex.attrs:
            self.emit(ex.attrs + '\n')
        if ex.trusted:
            self.emit('#[verifier::external_body]\n')
        ev = [(a, 1, o, t, a) for a, o, t in ins] + [(a, 2, 0, t, b) for a, b, t in rep]
        ev.sort(key=lambda x: (x[0], x[1], x[2]))
        pos = s0
        for a, kind, o, t, b in ev:
            if a < pos:
                if kind == 2 and b <= pos:
                    continue
                raise LostAnchor('overlapping rewrites')
            self.emit(src[pos:a], ex.file, S.line(pos))
            if '/*VAC ' in t:
                self.vac_lines[self._l + t[:t.index('/*VAC ')].count('\n')] = re.search(r'/\*VAC (.*?)\*/', t).group(1)
            self.emit(t)
            pos = b
        self.emit(src[pos:e0], ex.file, S.line(pos))
        self.emit('\n' + close)

    def _vk(self):
        self._vkn = getattr(self, '_vkn', 0) + 1
        return self._vkn

    def fn_shape(self, toks, o, c, loops):
        callees = set()
        for i in range(o, c):
            if toks[i].k == 'id' and toks[i + 1].t == '(' and toks[i - 1].t != 'fn':
                callees.add(toks[i].t)
            if toks[i].k == 'id' and toks[i + 1].t == '!':
                callees.add(toks[i].t + '!')
        return dict(loops=[toks[l[0]].t for l in loops], callees=sorted(callees))

    def anchor(self, S, it, loops, where):
        toks = S.toks
        o, c = it.body
        w = where.split(None, 1)
        if w[0] == 'start':
            return toks[o].e, 1
        if w[0] == 'end':
            return toks[c].s, -5
        if w[0] == 'loop':
            k, what = w[1].split()
            k = int(k)
            if k >= len(loops):
                raise LostAnchor(f'loop {k} is gone')
            kw, bo, bc = loops[k]
            if what == 'before':
                return toks[kw].s, -1
            if what == 'body-start':
                return toks[bo].e, 1
            if what == 'body-end':
                return toks[bc].s, -5
            if what == 'after':
                return toks[bc].e, 1
        if w[0] in ('before', 'after', 'before#2', 'after#2', 'before#3', 'after#3'):
            kk = int(w[0].split('#')[1]) if '#' in w[0] else 1
            pat = [t.t for t in lex(w[1])]
            n = 0
            for i in range(o, c - len(pat) + 1):
                if [t.t for t in toks[i:i + len(pat)]] == pat:
                    n += 1
                    if n == kk:
                        return (toks[i].s, -1) if w[0].startswith('before') else (toks[i + len(pat) - 1].e, 1)
            raise LostAnchor(f'anchor `{w[1]}` is gone')
        raise LostAnchor('bad anchor ' + where)


TRUST_RX = [
    (r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', 'assumed contract on dependency'),
    (r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?((?:(?:broadcast|proof|uninterp|spec|unsafe|const)\s+)*(?:fn|struct|enum)\s+\w+)', 'external_body'),
    (r'#\[verifier::external_type_specification\](?:\s*#\[[^\]]*\])*\s*(?:pub\s+)?(?:struct|enum)\s+(\w+)', 'external type'),
    (r'\bassume\s*\(', 'assume'),
    (r'\badmit\s*\(', 'admit'),
    (r'uninterp\s+spec\s+fn\s+(\w+)', 'uninterpreted spec function'),
    (r'\baxiom\s+fn\s+(\w+)', 'axiom'),
    (r'\bexec_allows_no_decreases_clause\b', 'termination not proved'),
]

def trusted_scan(text):
    text = re.sub(r'//[^\n]*', '', text)
    r = []
    for rx, what in TRUST_RX:
        for m in re.finditer(rx, text):
            r.append(what + (': ' + re.sub(r'\s+', ' ', m.group(1)) if m.groups() else ''))
    return sorted(set(r))

def run_verus(path, extra=(), timeout=600):
    t = time.time()
    cmd = ['verus', '--edition=2024', path, '--output-json', '--time', '--multiple-errors', '8', '--num-threads', '6', *extra]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=VERUS_ENV, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = '', 'TIMEOUT', -1
    js = {}
    try:
        js = json.loads(out)
    except Exception:
        pass
    return dict(rc=rc, json=js, stderr=err, wall=time.time() - t, cmd=' '.join(cmd))

ERR_RX = re.compile(r'^(error|note)(?:\[[^\]]*\])?: (.*)$')

def parse_errors(stderr):
    """-> list of dict(msg, lines=[(out line, label)])"""
    errs, cur = [], None
    for line in stderr.split('\n'):
        m = ERR_RX.match(line)
        if m and m.group(1) == 'error':
            cur = dict(msg=m.group(2), lines=[], text=[line])
            errs.append(cur)
            continue
        if line.startswith(('warning', 'note:')) and not line.startswith(' '):
            if line.startswith('warning'):
                cur = None
        if cur is not None:
            cur['text'].append(line)
            m = re.match(r'\s*(?:-->|:::) (.*?):(\d+):(\d+)', line)
            if m:
                cur['lines'].append(int(m.group(2)))
            m = re.match(r'\s*(\d+) \|', line)
            if m:
                cur['lines'].append(int(m.group(1)))
    return [e for e in errs if not e['msg'].startswith('aborting due to')]

# messages that are proof failures (everything else is a front-end error)
PROOF_MSG = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
             'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied',
             'recommendation not met', 'index out of bounds', 'possible bit shift', 'assertion not satisfied',
             'unreachable', 'cannot prove termination', 'could not prove', 'requires not satisfied', 'unable to prove',
             'the condition', 'failed to', 'loop invariant')
LIMIT_MSG = ('Resource limit', 'rlimit', 'while loop: Resource', 'function body check: Resource')

def classify(errs, rc):
    proof, limit, front = [], [], []
    for e in errs:
        m = e['msg']
        if any(x in m for x in LIMIT_MSG):
            limit.append(e)
        elif any(m.startswith(x) or x in m for x in PROOF_MSG):
            proof.append(e)
        else:
            front.append(e)
    return proof, limit, front
