"""A small Rust lexer and item finder, enough to cut real functions and types out of /repo verbatim."""
import re

class LostAnchor(Exception):
    pass

_ws = re.compile(r'\s+')
_id = re.compile(r"r#[A-Za-z_]\w*|[A-Za-z_]\w*")
_num = re.compile(r"\d[\w]*(?:\.\d[\w]*)?")
_rawstr = re.compile(r'(?:b|c)?r(#*)"')
_str = re.compile(r'(?:b|c)?"')
_life = re.compile(r"'(?:[A-Za-z_]\w*)(?!')")
_chr = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])'")
PUN = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '==', '!=', '<=', '>=', '..']

class Tok:
    __slots__ = ('k', 't', 'a', 'b')
    def __init__(s, k, t, a, b):
        s.k, s.t, s.a, s.b = k, t, a, b
    def __repr__(s):
        return s.t

def lex(src):
    """Tokens without whitespace and comments. kinds: id num str chr life pun"""
    out, i, n = [], 0, len(src)
    while i < n:
        m = _ws.match(src, i)
        if m:
            i = m.end(); continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = _rawstr.match(src, i)
        if m:
            e = src.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            out.append(Tok('str', src[i:e], i, e)); i = e; continue
        m = _chr.match(src, i)
        if m:
            out.append(Tok('chr', m.group(0), i, m.end())); i = m.end(); continue
        m = _str.match(src, i)
        if m:
            j = m.end()
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append(Tok('str', src[i:j+1], i, j+1)); i = j + 1; continue
        m = _life.match(src, i)
        if m:
            out.append(Tok('life', m.group(0), i, m.end())); i = m.end(); continue
        m = _id.match(src, i)
        if m:
            out.append(Tok('id', m.group(0), i, m.end())); i = m.end(); continue
        m = _num.match(src, i)
        if m:
            t = m.group(0)
            # `0..8`: do not swallow the range dots
            if '.' in t and src.startswith('..', i + t.index('.')):
                t = t[:t.index('.')]
            elif '.' in t and re.match(r'\.[A-Za-z_]', src[i + t.index('.'):]):
                t = t[:t.index('.')]
            out.append(Tok('num', t, i, i + len(t))); i += len(t); continue
        for p in PUN:
            if src.startswith(p, i):
                out.append(Tok('pun', p, i, i + len(p))); i += len(p); break
        else:
            out.append(Tok('pun', src[i], i, i + 1)); i += 1
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match(toks, i):
    """Index of the bracket closing toks[i]."""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k == 'pun':
            if t in OPEN: d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LostAnchor('unbalanced brackets')

def norm(toks):
    return ' '.join(t.t for t in toks)

DEFAULT_CFG = {'feature="parallel"': True, 'feature="mmap"': True, 'feature="lz4_flex"': True,
               'target_arch="wasm32"': False, 'test': False, 'kani': False, 'verus': False, 'debug_assertions': True}

def cfg_eval(toks, cfg):
    """Evaluates the inside of cfg( ... )."""
    def expr(i):
        t = toks[i]
        if t.t in ('all', 'any', 'not') and i + 1 < len(toks) and toks[i+1].t == '(':
            e = match(toks, i + 1)
            vals, j = [], i + 2
            while j < e:
                v, j = expr(j)
                vals.append(v)
                if j < e and toks[j].t == ',': j += 1
            r = all(vals) if t.t == 'all' else any(vals) if t.t == 'any' else not vals[0]
            return r, e + 1
        if i + 1 < len(toks) and toks[i+1].t == '=':
            key = t.t + '=' + toks[i+2].t
            return cfg.get(key, False), i + 3
        return cfg.get(t.t, False), i + 1
    return expr(0)[0]

def strip_attrs(src, cfg=DEFAULT_CFG):
    """Resolves #[cfg] and drops every other attribute and every comment; the rest of the text is kept.
    Returns (text, list of what was dropped)."""
    toks = lex(src)
    cuts = []
    dropped = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.t == '#' and i + 1 < len(toks) and (toks[i+1].t == '[' or (toks[i+1].t == '!' and toks[i+2].t == '[')):
            j = i + 1 if toks[i+1].t == '[' else i + 2
            e = match(toks, j)
            if toks[j+1].t == 'cfg' and not cfg_eval(toks[j+3:e-1], cfg):
                # the thing the attribute sits on goes too
                k = e + 1
                while toks[k].t == '#':
                    k = match(toks, k + 1) + 1
                end = k
                first = toks[k].t
                item = first in ('fn', 'pub', 'impl', 'mod', 'struct', 'enum', 'trait', 'unsafe', 'for', 'while', 'if', 'match', 'loop', '{')
                while True:
                    tt = toks[end].t
                    if tt in OPEN:
                        m = match(toks, end)
                        if tt == '{' and item:
                            end = m; break
                        end = m + 1; continue
                    if tt in (';', ','):
                        break
                    if tt in CLOSE:
                        end -= 1; break
                    end += 1
                cuts.append((t.a, toks[end].b)); dropped.append('cfg-disabled: ' + norm(toks[j+1:e])[:60])
                i = end + 1
                continue
            cuts.append((t.a, toks[e].b))
            i = e + 1
            continue
        i += 1
    out, p = [], 0
    for a, b in cuts:
        out.append(src[p:a]); p = b
    out.append(src[p:])
    return strip_comments(''.join(out)), dropped

def strip_comments(src):
    toks = lex(src)
    out, p = [], 0
    for t in toks:
        gap = src[p:t.a]
        out.append('\n' * gap.count('\n') + ('' if '\n' in gap else ' ' if gap else '') + (' ' if '\n' in gap else ''))
        # keep indentation on the last line of the gap
        if '\n' in gap:
            ind = gap.rsplit('\n', 1)[1]
            if not ind.strip():
                out[-1] = re.sub(r'\n\s*\n+', '\n', '\n' * gap.count('\n')) + ind
        out.append(t.t)
        p = t.b
    return ''.join(out)

class Source:
    def __init__(self, path, text=None):
        self.path = path
        self.raw = text if text is not None else open(path).read()
        self.text, self.dropped = strip_attrs(self.raw)
        self.toks = lex(self.text)

    # ---- items at a nesting level given by a token range
    def items(self, lo=0, hi=None):
        """Yields (kind, header tokens, start, body_open or None, end) for the items in the range."""
        toks = self.toks
        hi = len(toks) if hi is None else hi
        i = lo
        while i < hi:
            s = i
            while toks[i].t in ('pub', 'unsafe', 'const', 'async', 'extern', 'default') and not (
                    toks[i].t == 'const' and toks[i+1].t != 'fn' and toks[i+1].k == 'id' and toks[i+1].t not in ('unsafe', 'async', 'extern')):
                i += 1
                if toks[i].t == '(':
                    i = match(toks, i) + 1
                if toks[i].k == 'str':
                    i += 1
            kw = toks[i].t
            if kw in ('fn', 'impl', 'mod', 'struct', 'enum', 'trait', 'const', 'static', 'type', 'use', 'macro_rules', 'union'):
                j = i + 1
                body = None
                while True:
                    t = toks[j].t
                    if t == '{':
                        body = j; e = match(toks, j); break
                    if t == ';':
                        e = j; break
                    if t in OPEN:
                        j = match(toks, j) + 1; continue
                    j += 1
                if kw in ('const', 'static', 'use', 'type') and body is not None:
                    # initialiser or use-group braces
                    j = e + 1
                    while toks[j].t != ';':
                        j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
                    e = j; body = None
                if kw == 'macro_rules' and e + 1 < len(toks) and toks[e+1].t == ';': e += 1
                yield (kw, toks[i:(body if body is not None else e)], s, body, e)
                i = e + 1
            else:
                # macro call or stray token
                j = i
                while j < hi and toks[j].t not in (';',) and toks[j].t != '{':
                    j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
                if j < hi and toks[j].t == '{':
                    j = match(toks, j)
                yield ('other', toks[i:i+2], s, None, min(j, hi - 1))
                i = j + 1

    def find_type(self, kw, name):
        for k, h, s, b, e in self.items():
            if k == kw and h[1].t == name:
                return self.text[self.toks[s].a:self.toks[e].b]
        raise LostAnchor(f'{kw} {name} not found in {self.path}')

    def find_const(self, name, selty):
        for k, h, s, b, e in self.items():
            if k == 'impl' and b is not None and self._impl_matches(h, selty, None):
                for k2, h2, s2, b2, e2 in self.items(b + 1, e):
                    if k2 == 'const' and h2[1].t == name:
                        return self.text[self.toks[s2].a:self.toks[e2].b]
        raise LostAnchor(f'const {selty}::{name} not found in {self.path}')

    def _impl_matches(self, h, selty, trait):
        toks = h[1:]
        i = 0
        if toks and toks[0].t == '<':
            d = 0
            while True:
                t = toks[i].t
                if t == '<': d += 1
                elif t == '>': d -= 1
                elif t == '>>': d -= 2
                i += 1
                if d == 0: break
        rest = []
        d = 0
        for t in toks[i:]:
            if t.t == 'where': break
            rest.append(t)
        names = norm(rest)
        parts = re.split(r'\bfor\b(?! <)', names)
        if len(parts) == 2:
            tr, ty = parts[0].strip(), parts[1].strip()
        else:
            tr, ty = None, parts[0].strip()
        def base(x): return re.sub(r'^& ', '&', x).split(' <')[0].split(' :: ')[-1].strip()
        if (trait is None) != (tr is None):
            return False
        if trait is not None and base(tr) != trait:
            return False
        return base(ty) == selty

    def find_fn(self, name, selty=None, trait=None, in_trait=None, macro=None):
        """Text pieces of a function: (signature tokens, text of signature, text of body incl. braces)."""
        hits = []
        if in_trait:
            for k, h, s, b, e in self.items():
                if k == 'trait' and h[1].t == in_trait:
                    for k2, h2, s2, b2, e2 in self.items(b + 1, e):
                        if k2 == 'fn' and h2[1].t == name:
                            hits.append((s2, b2, e2))
        elif selty is None:
            for k, h, s, b, e in self.items():
                if k == 'fn' and h[1].t == name:
                    hits.append((s, b, e))
        else:
            for k, h, s, b, e in self.items():
                if k == 'impl' and b is not None and self._impl_matches(h, selty, trait):
                    for k2, h2, s2, b2, e2 in self.items(b + 1, e):
                        if k2 == 'fn' and h2[1].t == name:
                            hits.append((s2, b2, e2))
        if len(hits) != 1:
            raise LostAnchor(f'{(selty or in_trait or "")}::{name} found {len(hits)} times in {self.path}')
        s, b, e = hits[0]
        if b is None:
            raise LostAnchor(f'{name} has no body')
        T = self.toks
        return self.text[T[s].a:T[b].a], self.text[T[b].a:T[e].b]

    def expand_macro(self, mname, ty):
        """Source holding the body of macro_rules! mname for one `$t`, as its caller would expand it."""
        for k, h, s, b, e in self.items():
            if k == 'macro_rules' and h[2].t == mname:
                arrow = next(i for i in range(b, e) if self.toks[i].t == '=>')
                o = arrow + 1
                c = match(self.toks, o)
                # $( ... )*
                inner = self.text[self.toks[o].b:self.toks[c].a]
                m = re.match(r'\s*\$\((.*)\)\s*\*\s*$', inner, re.S)
                if not m:
                    raise LostAnchor(f'macro {mname} is not a plain repetition')
                return Source(self.path + '!' + mname, re.sub(r'\$t\b', ty, m.group(1)))
        raise LostAnchor(f'macro {mname} not found in {self.path}')
