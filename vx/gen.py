"""Builds one Verus file out of vx/*.vt (contracts) and the functions and types cut from /repo/src on this run.

Template directives (each on its own line, inside a .vt file; everything else is copied):
  //@type FILE KIND NAME [derive=A,B]           a struct/enum/const, verbatim, attributes dropped
  //@fn FILE NAME [impl=T] [trait=Tr] [in_trait=Tr] [macro=m:TY] [as=NEW] [id=ID] [props=C01,C02] [ret=r]
      contract text (requires/ensures/decreases)
  //@loop N [it=NAME]      contract text of the N-th loop of that function
  //@hint WHERE            proof text; WHERE: start | loopstart N | loopend N | before `tokens` | after `tokens` | afterloop N
  //@rw `tokens` => `tokens` [all] [why ...]
  //@endfn
"""
import re, json, sys, os
from rustlex import *

REPO = os.environ.get('PARCODE_REPO', '/repo')
BROADCAST = ('lemma_le_bytes_len', 'axiom_arrn', 'axiom_vec_len', 'axiom_slice_len', 'lemma_sub_sub', 'lemma_sub_full', 'lemma_bytes_eq')
HERE = os.path.dirname(os.path.abspath(__file__))

def tokpat(s):
    return [t.t for t in lex(s)]

def find_wild(toks, pat):
    """Matches with `$n` standing for a (shortest) balanced run of tokens. Yields (first, last, {n: (first, last)})."""
    hits = []
    for s in range(len(toks)):
        i, j, caps, ok = s, 0, {}, True
        while j < len(pat):
            if pat[j] == '$' :
                name = pat[j+1]
                stop = pat[j+2] if j + 2 < len(pat) else None
                b = i
                if name.islower():      # $v: exactly one identifier
                    if i >= len(toks) or not re.match(r'[A-Za-z_]\w*$', toks[i].t): ok = False; break
                    caps[name] = (i, i); i += 1; j += 2
                    continue
                while i < len(toks) and toks[i].t != stop:
                    if toks[i].t in CLOSE: ok = False; break
                    i = match(toks, i) + 1 if toks[i].t in OPEN else i + 1
                if not ok or i >= len(toks) or i == b: ok = False; break
                caps[name] = (b, i - 1)
                j += 2
                continue
            if i >= len(toks) or toks[i].t != pat[j]: ok = False; break
            i += 1; j += 1
        if ok and i > s:
            hits.append((s, i - 1, caps))
    return hits

def find_tokens(toks, pat, start=0):
    n = len(pat)
    hits = []
    for i in range(start, len(toks) - n + 1):
        if all(toks[i+j].t == pat[j] for j in range(n)):
            hits.append(i)
    return hits

class Fn:
    pass

GLOBAL_RULES = []
def rule(name):
    def d(f):
        GLOBAL_RULES.append((name, f)); return f
    return d

FEATURES = {'mmap', 'parallel', 'lz4_flex'}

def cfg_eval(toks, i, e):
    """Truth of the cfg predicate toks[i:e] for the build under contract (default features plus lz4_flex, not wasm32)."""
    t = toks[i].t
    if t in ('all', 'any', 'not'):
        c = match(toks, i + 1)
        parts, j, s = [], i + 2, i + 2
        while j <= c:
            if j == c or toks[j].t == ',':
                if j > s: parts.append(cfg_eval(toks, s, j))
                s = j + 1; j += 1
            else: j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
        return {'all': all, 'any': any, 'not': lambda p: not p[0]}[t](parts)
    if t == 'feature': return toks[i+2].t.strip('"') in FEATURES
    if t == 'target_arch': return toks[i+2].t.strip('"') == 'x86_64'
    if t == 'test': return False
    raise LostAnchor('cfg ' + t)

@rule('#[cfg(..)] resolved for default features plus lz4_flex on x86_64; #[allow(..)] dropped')
def rcfg(toks):
    out, i = [], 0
    while i < len(toks) - 2:
        if toks[i].t == '#' and toks[i+1].t == '[' and toks[i+2].t in ('cfg', 'allow'):
            e = match(toks, i + 1)
            if toks[i+2].t == 'allow' or cfg_eval(toks, i + 4, match(toks, i + 3)):
                out.append((toks[i].a, toks[e].b, '')); i = e + 1
                continue
            j = e + 1
            while toks[j].t == '#': j = match(toks, j + 1) + 1
            while j < len(toks) and toks[j].t not in (';', '{', ','):
                if toks[j].t in CLOSE: j -= 1; break
                j = match(toks, j) + 1 if toks[j].t in ('(', '[') else j + 1
            if toks[j].t == '{': j = match(toks, j)
            out.append((toks[i].a, toks[j].b, '')); i = j + 1
            continue
        i += 1
    return out

@rule('closure parameter `_` named')
def r1(toks):
    out = []
    for i in range(len(toks) - 2):
        if toks[i].t == '|' and toks[i+1].t == '_' and toks[i+2].t in ('|', ':') and toks[i-1].t in ('(', ',', '=', 'move'):
            out.append((toks[i+1].a, toks[i+1].b, '_ignored'))
    return out

@rule('x.to_le_bytes() -> x.vto_le_bytes() (wrapper around the same std call, trusted)')
def r2(toks):
    return [(t.a, t.b, 'vto_le_bytes') for i, t in enumerate(toks) if t.t == 'to_le_bytes' and toks[i-1].t == '.']

@rule('uN::from_le_bytes -> uN_from_le_bytes (wrapper around the same std call, trusted)')
def r3(toks):
    out = []
    for i, t in enumerate(toks):
        if t.t == 'from_le_bytes' and toks[i-1].t == '::' and re.match(r'u\d+$', toks[i-2].t):
            out.append((toks[i-2].a, t.b, toks[i-2].t + '_from_le_bytes'))
    return out

@rule('slice.try_into() -> slice.vtry_into() (wrapper around the same std call, trusted)')
def r4(toks):
    return [(t.a, t.b, 'vtry_into') for i, t in enumerate(toks) if t.t == 'try_into' and toks[i-1].t == '.']

@rule('std::io::Cursor / std::vec::IntoIter paths shortened (Cursor is a stand-in with the same methods)')
def r8(toks):
    out = []
    for i, t in enumerate(toks[:-4]):
        if t.t == 'std' and toks[i+1].t == '::' and toks[i+2].t in ('io', 'vec') and toks[i+3].t == '::' and toks[i+4].t in ('Cursor', 'IntoIter'):
            out.append((t.a, toks[i+4].a, ''))
    return out

@rule('v.try_reserve_exact(n) -> v.vtry_reserve_exact(n) (wrapper around the same std call, trusted)')
def r9(toks):
    return [(t.a, t.b, 'vtry_reserve_exact') for i, t in enumerate(toks) if t.t == 'try_reserve_exact' and toks[i-1].t == '.']

@rule('*b"..." byte-string literal written as the array literal it denotes')
def r0(toks):
    out = []
    for i, t in enumerate(toks):
        if t.k == 'str' and t.t.startswith('b"') and toks[i-1].t == '*' and '\\' not in t.t:
            out.append((toks[i-1].a, t.b, '[' + ', '.join(f'{ord(c)}u8' for c in t.t[2:-1]) + ']'))
    return out

MODS = {'error', 'format', 'graph', 'map', 'rt', 'reader', 'visitor', 'compression', 'executor', 'io', 'inspector', 'visitor_impls', 'core', 'job', 'id', 'internal'}
@rule('crate::module:: paths flattened (all extracted code sits in one module)')
def r5(toks):
    out = []
    i = 0
    while i < len(toks):
        if toks[i].t == 'crate' and toks[i+1].t == '::':
            j = i + 2
            while toks[j].t in MODS and toks[j+1].t == '::':
                j += 2
            out.append((toks[i].a, toks[j].a, ''))
            i = j
        i += 1
    return out

@rule('let-chain `if a && let p = e {..}` written as nested ifs (no else branch)')
def r6(toks):
    out = []
    for i, t in enumerate(toks):
        if t.t != 'if': continue
        j, cuts = i + 1, []
        while toks[j].t != '{':
            if toks[j].t == '&&': cuts.append(j)
            j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
        starts = [i + 1] + [c + 1 for c in cuts]
        if not cuts or not any(toks[x].t == 'let' for x in starts):
            continue
        e = match(toks, j)
        if e + 1 < len(toks) and toks[e+1].t == 'else':
            raise LostAnchor('let-chain with else')
        # only plain conditions around the lets: keep runs of plain parts together
        n = 0
        for c, x in zip(cuts, starts[1:]):
            prev = starts[starts.index(x) - 1]
            if toks[x].t == 'let' or toks[prev].t == 'let':
                out.append((toks[c].a, toks[c].b, '{ if')); n += 1
        out.append((toks[e].b, toks[e].b, ' }' * n))
    return out

@rule('in a for body, `if c { continue; } rest` written as `if c {} else { rest }`')
def r11(toks):
    out = []
    for i, t in enumerate(toks):
        if t.t != 'for' or (i and toks[i-1].t in ('>', 'impl')): continue
        j = i + 1
        while j < len(toks) and toks[j].t not in ('{', ';'):
            j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
        if j >= len(toks) or toks[j].t != '{' or not any(toks[x].t == 'in' for x in range(i, j)): continue
        e, k = match(toks, j), j + 1
        while k < e:
            if toks[k].t == 'if':
                b = k + 1
                while toks[b].t != '{': b = match(toks, b) + 1 if toks[b].t in OPEN else b + 1
                be = match(toks, b)
                if [x.t for x in toks[b:be+1]] == ['{', 'continue', ';', '}'] and toks[be+1].t != 'else':
                    out.append((toks[b].a, toks[be].b, '{} else {')); out.append((toks[e].a, toks[e].a, '}'))
                k = be + 1
            else:
                k = match(toks, k) + 1 if toks[k].t in OPEN else k + 1
    return out

def apply_edits(text, edits):
    edits = sorted(edits, key=lambda e: (e[0], e[1]))
    out, p = [], 0
    for a, b, s in edits:
        if a < p:
            raise LostAnchor('overlapping edits')
        out.append(text[p:a]); out.append(s); p = b
    out.append(text[p:])
    return ''.join(out)

def rewrite(text, used):
    for name, f in GLOBAL_RULES:
        ed = f(lex(text))
        if ed:
            text = apply_edits(text, ed)
            used[name] = used.get(name, 0) + len(ed)
    return text

def loops_of(toks):
    """(kind, kw index, body-open index, body-close index) of every loop, in source order."""
    out = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.t in ('for', 'while', 'loop'):
            if t.t == 'for' and toks[i+1].t == '<':
                continue
            j = i + 1
            while toks[j].t != '{':
                j = match(toks, j) + 1 if toks[j].t in ('(', '[') else j + 1
                # `match`/`if` blocks in a loop header do not occur here
            out.append((t.t, i, j, match(toks, j)))
    return out

class Gen:
    def __init__(self, repo=REPO, degrade=(), smoke=False, omit=(), smoke_ids=()):
        self.smoke_ids = set(smoke_ids)
        self.smoke = smoke
        self.omit = set(omit)
        self.repo = repo
        self.degrade = set(degrade)
        self.sources = {}
        self.out = []
        self.fns = []      # dict per extracted function
        self.used = {}
        self.lost = []     # (id, reason)
        self.types = []
        self.localrw = []

    def src(self, f):
        if f not in self.sources:
            self.sources[f] = Source(os.path.join(self.repo, f))
        return self.sources[f]

    def emit(self, text):
        self.out.append(text)

    def lineno(self):
        return sum(x.count('\n') for x in self.out) + 1

    def run(self, templates):
        for t in templates:
            self.template(os.path.join(HERE, t))
        return ''.join(self.out)

    def template(self, path):
        lines = open(path).read().split('\n')
        mod = None
        # //@each X in a b c ... //@end: the lines between, once per word
        j = 0
        while j < len(lines):
            m = re.match(r'//@each (\w+) in (.*)$', lines[j])
            if m:
                e = lines.index('//@end', j)
                rep = [l.replace('$' + m.group(1), w) for w in m.group(2).split() for l in lines[j+1:e]]
                lines[j:e+1] = rep; j += len(rep)
            else: j += 1
        if lines[0].startswith('//@module '):
            # its own module: the solver sees only what this part uses, and parts are solved side by side
            mod = lines[0].split()[1]
            bc = ', '.join(lines[0].split()[2:] or BROADCAST)
            self.emit(f'pub mod {mod} {{\nuse super::*;\nbroadcast use {{{bc}}};\n')
            lines = lines[1:]
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith('//@type '):
                self.do_type(s[8:])
            elif s.startswith('//@const '):
                self.do_const(s[9:])
            elif s.startswith('//@fn '):
                j = i + 1
                while lines[j].strip() != '//@endfn':
                    j += 1
                self.do_fn(s[6:], lines[i+1:j], os.path.basename(path))
                i = j
            else:
                a = self.lineno()
                self.emit(l + '\n')
            i += 1
        if mod:
            self.emit(f'}}\npub use {mod}::*;\n')

    def opts(self, s):
        pos, kw = [], {}
        for w in s.split():
            m = re.match(r'(\w+)=(.*)$', w)
            if m: kw[m.group(1)] = m.group(2)
            else: pos.append(w)
        return pos, kw

    def do_type(self, s):
        pos, kw = self.opts(s)
        f, kind, name = pos
        text = self.src(f).find_type(kind, name)
        text = rewrite(text, self.used)
        for w, r in (('pub ( crate )', 'pub'), ):
            pass
        text = re.sub(r'pub\s*\(\s*crate\s*\)', 'pub', text)
        if kw.get('pub', '1') == '1':
            text = self.publicise(text, kind)
        self.types.append(f'{f} {kind} {name}')
        if 'derive' in kw:
            self.emit(f'#[derive({kw["derive"]})]\n')
        for a in kw.get('attr', '').split(','):
            if a: self.emit(f'#[{a}]\n')
        self.emit(text + '\n')

    def do_const(self, s):
        pos, kw = self.opts(s)
        f, name = pos
        text = self.src(f).find_const(name, kw['impl'])
        text = re.sub(r'^pub\s*(\([^)]*\))?\s*', '', text)
        self.types.append(f'{f} const {kw["impl"]}::{name}')
        self.emit('pub ' + rewrite(text, self.used) + '\n')

    def publicise(self, text, kind):
        """Visibility only: specifications need to name the fields."""
        toks = lex(text)
        ed = []
        if toks[0].t != 'pub':
            ed.append((toks[0].a, toks[0].a, 'pub '))
        if kind == 'struct':
            i = 0
            while toks[i].t not in ('{', '(', ';'):
                i += 1
            if toks[i].t in ('{', '('):
                e = match(toks, i)
                j = i + 1
                start = True
                while j < e:
                    if start and toks[j].t != 'pub':
                        ed.append((toks[j].a, toks[j].a, 'pub '))
                    start = False
                    d = 0
                    while j < e and not (toks[j].t == ',' and d == 0):
                        if toks[j].t == '<': d += 1
                        elif toks[j].t == '>': d -= 1
                        elif toks[j].t == '>>': d -= 2
                        j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
                    j += 1; start = True
        return apply_edits(text, ed)

    def do_fn(self, head, block, tname):
        pos, kw = self.opts(head)
        f, name = pos
        fid = kw.get('id') or '::'.join(x for x in (kw.get('impl') or kw.get('in_trait'), kw.get('trait'), name) if x)
        info = dict(id=fid, file=f, name=name, props=[p for p in kw.get('props', '').split(',') if p], template=tname)
        # parse the block
        spec, loops, hints, rws = [], {}, [], []
        cur = spec
        for l in block:
            s = l.strip()
            if s.startswith('//@loop '):
                p, k = self.opts(s[8:])
                cur = []; loops[int(p[0])] = (k.get('it'), cur)
            elif s.startswith('//@hint '):
                cur = []; hints.append((s[8:].strip(), cur))
            elif s.startswith('//@rw '):
                m = re.match(r'`(.*?)`\s*=>\s*`(.*?)`\s*(all|opt)?\s*(?:why\s+(.*))?$', s[6:])
                if not m:
                    raise SystemExit(f'bad rw in {tname}: {s}')
                rws.append(m.groups())
            else:
                cur.append(l)
        if self.smoke and self.smoke != 'entry:' and (self.smoke is True or fid in self.smoke) and not kw.get('trait') and not kw.get('in_trait'):
            spec = self.smoked(spec)
        spec_text = '\n'.join(spec)
        start = self.lineno()
        info['start'] = start
        try:
            src = self.src(f)
            if 'macro' in kw:
                m, ty = kw['macro'].split(':', 1)
                src = src.expand_macro(m, ty)
            sig, body = src.find_fn(name, kw.get('impl'), kw.get('trait'), kw.get('in_trait'))
            info['loc'] = body.count('\n') + 1
            sig = rewrite(sig, self.used)
            if 'as' in kw:
                sig = re.sub(r'\bfn\s+' + name + r'\b', 'fn ' + kw['as'], sig, count=1)
            sig = re.sub(r'pub\s*\(\s*crate\s*\)', 'pub', sig)
            if not kw.get('trait') and not kw.get('in_trait') and not sig.lstrip().startswith('pub'):
                sig = 'pub ' + sig.lstrip()
            counts = {}
            for old, new, mode, why in rws:
                c = counts.setdefault(old, [0])
                sig = self.tokrw(sig, old, new, c)
            sig = self.name_ret(sig, kw.get('ret', 'ret'))
            sig, where = self.split_where(sig)
            if fid in self.degrade:
                raise LostAnchor('degraded: ' + 'outside the verifier\'s reach on this tree')
            body = rewrite(body, self.used)
            for old, new, mode, why in rws:
                c = counts[old]
                body = self.tokrw(body, old, new, c)
                if c[0]:
                    self.localrw.append(f'{fid}: `{old}` -> `{new}`' + (f' ({why})' if why else ''))
                elif mode != 'opt':
                    raise LostAnchor(f'`{old}` not found')
            if (self.smoke == 'entry:' and fid in self.smoke_ids) or (self.smoke and self.smoke != 'entry:' and (self.smoke is True or fid in self.smoke) and (kw.get('trait') or kw.get('in_trait'))):
                hints = hints + [('start', ['proof { assert(false); }'])]
            body = self.splice(body, loops, hints)
            attrs = ''.join(f'#[verifier::{a}]\n' for a in kw.get('attr', '').split(';') if a)
            self.emit(f'// ---- {f} {fid}\n{attrs}{sig}{where}\n{spec_text}\n')
            info['body_start'] = self.lineno()
            self.emit(body + '\n')
            info['status'] = 'extracted'
        except LostAnchor as ex:
            info['status'] = 'lost'
            info['reason'] = str(ex)
            self.lost.append((fid, str(ex)))
            try:
                if fid in self.omit: raise UnboundLocalError
                self.emit(f'// ---- {f} {fid}: body left out ({ex})\n#[verifier::external_body]\n{sig}{where}\n{spec_text}\n{{ unimplemented!() }}\n')
            except UnboundLocalError:
                self.emit(f'// ---- {f} {fid}: not found ({ex})\n')
        info['end'] = self.lineno()
        self.fns.append(info)

    def tokrw(self, text, old, new, counter):
        toks = lex(text)
        ed, last = [], -1
        for s, e, caps in find_wild(toks, tokpat(old)):
            if s <= last: continue
            rep = new
            for n, (x, y) in caps.items():
                rep = rep.replace('$' + n, text[toks[x].a:toks[y].b])
            ed.append((toks[s].a, toks[e].b, rep)); last = e
        counter[0] += len(ed)
        return apply_edits(text, ed) if ed else text

    def smoked(self, spec):
        """The same contract with an impossible postcondition: the verifier must reject it."""
        t = '\n'.join(spec)
        if re.search(r'\bensures\b', t):
            return re.sub(r'\bensures\b', 'ensures false,', t, count=1).split('\n')
        m = re.search(r'\bdecreases\b', t)
        if m:
            return (t[:m.start()] + 'ensures false,\n' + t[m.start():]).split('\n')
        return (t.rstrip() + ('' if not t.strip() or t.rstrip().endswith(',') else ',') + '\nensures false,').split('\n')

    def split_where(self, sig):
        toks = lex(sig)
        d = 0
        for i, t in enumerate(toks):
            if t.t in OPEN: d += 1
            elif t.t in CLOSE: d -= 1
            elif t.t == 'where' and d == 0:
                w = sig[t.a:].rstrip()
                if not w.endswith(','): w += ','
                return sig[:t.a], w
        return sig, ''

    def name_ret(self, sig, r):
        toks = lex(sig)
        # parameter list, then `->`
        i = 0
        d = 0
        while True:
            t = toks[i].t
            if t == '<': d += 1
            elif t == '>': d -= 1
            elif t == '>>': d -= 2
            elif t == '(' and d <= 0:
                break
            i += 1
        e = match(toks, i)
        ed = []
        # `_` parameters need a name
        n = 0
        for j in range(i + 1, e):
            if toks[j].t == '_' and toks[j+1].t == ':' and toks[j-1].t in ('(', ','):
                ed.append((toks[j].a, toks[j].b, f'_p{n}')); n += 1
        if e + 1 < len(toks) and toks[e+1].t == '->':
            a = toks[e+2].a
            b = toks[-1].b
            for j in range(e + 2, len(toks)):
                if toks[j].t == 'where':
                    b = toks[j-1].b; break
            ed.append((a, a, f'({r}: ')); ed.append((b, b, ')'))
        return apply_edits(sig, ed)

    def splice(self, body, loops, hints):
        toks = lex(body)
        ls = loops_of(toks)
        ed = []
        for n, (it, text) in loops.items():
            if n >= len(ls):
                raise LostAnchor(f'loop {n} not found')
            kind, kw, o, c = ls[n]
            if it:
                if kind != 'for':
                    raise LostAnchor(f'loop {n} is no longer a for loop')
                j = kw
                while toks[j].t != 'in':
                    j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
                ed.append((toks[j].b, toks[j].b, f' {it}:'))
            ed.append((toks[o].a, toks[o].a, '\n' + '\n'.join(text) + '\n'))
        if len(ls) > len(loops) and (loops or True):
            missing = [n for n in range(len(ls)) if n not in loops]
            if missing:
                raise LostAnchor(f'{len(ls)} loops, contracts for {len(loops)}')
        for where, text in hints:
            t = '\n' + '\n'.join(text) + '\n'
            if where == 'start':
                p = toks[0].b
            elif where == 'end':
                p = toks[-1].a
            elif where.startswith('loopstart '):
                p = toks[self.loop(ls, where)[2]].b
            elif where.startswith('loopend '):
                p = toks[self.loop(ls, where)[3]].a
            elif where.startswith('afterloop '):
                p = toks[self.loop(ls, where)[3]].b
            elif where.startswith('beforeloop '):
                p = toks[self.loop(ls, where)[1]].a
            else:
                m = re.match(r'(before|after|afterstmt)(\?)? `(.*)`$', where)
                pat = tokpat(m.group(3))
                hits = find_tokens(toks, pat)
                if len(hits) != 1:
                    if m.group(2):
                        continue
                    raise LostAnchor(f'anchor `{m.group(3)}` found {len(hits)} times')
                h = hits[0]
                if m.group(1) == 'before':
                    p = toks[h].a
                elif m.group(1) == 'after':
                    p = toks[h + len(pat) - 1].b
                else:
                    j = h
                    while toks[j].t != ';':
                        j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1
                    p = toks[j].b
            ed.append((p, p, t))
        return apply_edits(body, ed)

    def loop(self, ls, where):
        n = int(where.split()[1])
        if n >= len(ls):
            raise LostAnchor(f'loop {n} not found')
        return ls[n]
