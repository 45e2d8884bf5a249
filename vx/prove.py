"""Extracts the functions under contract from /repo as it is now, has Verus decide every obligation, and says per
function what came out. Nothing is cached between runs."""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import Gen, HERE

TEMPLATES = sorted(f for f in os.listdir(HERE) if f.endswith('.vt'))
VERUS = os.environ.get('VERUS', 'verus')
# messages of obligations the verifier could not discharge (anything else is a tool or typing problem)
UNDECIDED = ('rlimit', 'resource limit', 'timed out', 'timeout')

def run_verus(path, logdir=None, threads=8, timeout=400, extra=()):
    cmd = [VERUS, '--edition=2024', path, '--num-threads', str(threads), '--triggers-mode', 'silent', '--output-json', '--time-expanded',
           '--multiple-errors', '4', '--error-format=json', *extra]
    if logdir: cmd += ['--log-dir', logdir, '--log', 'air']
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        out, err, to = r.stdout, r.stderr, False
    except subprocess.TimeoutExpired as ex:
        out, err, to = '', '', True
    try: js = json.loads(out[out.index('{'):])
    except ValueError: js = None
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                diags.append(d)
    return dict(json=js, diags=diags, cmd=' '.join(cmd), wall=time.time() - t, timeout=to, err=err)

def spans(d):
    out = [(s['line_start'], s['is_primary'], s.get('label') or '') for s in d['spans'] if s['file_name'].endswith('.rs') and '/rustc/' not in s['file_name']]
    for c in d.get('children', []):
        out += [(s['line_start'], False, s.get('label') or '') for s in c.get('spans', [])]
    return out

def owner(g, d):
    """The extracted function an error belongs to: one whose body holds a span, else one whose range does."""
    sp = spans(d)
    for key in ('body_start', 'start'):
        for want_primary in (True, False):
            for n, prim, _ in sp:
                if prim != want_primary: continue
                for f in g.fns:
                    if f.get(key) and f[key] <= n < f['end']: return f
    return None

def enclosing_item(text, line):
    """Name of the hand-written item (lemma) a line of the generated file is in."""
    ls = text.split('\n')
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r'\s*(?:pub\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:proof|spec|axiom)?\s*(?:fn|axiom)\s+(?:fn\s+)?(\w+)', ls[i])
        if m: return m.group(1)
    return '?'

def obligations(logdir, g, text):
    """Proof obligations per function, counted in the verifier's own query log."""
    per, where = {}, None
    ls = text.split('\n')
    for f in os.listdir(logdir):
        if not f.endswith('.air'): continue
        cur = None
        lines = open(os.path.join(logdir, f), errors='replace').read().split('\n')
        for i, l in enumerate(lines):
            if l.startswith(';; Function-Def '):
                cur = None
                m = re.match(r';; \S*?\.rs:(\d+):', lines[i + 1]) if i + 1 < len(lines) else None
                if m:
                    n = int(m.group(1))
                    for fn in g.fns:
                        if fn['start'] <= n < fn['end']: cur = fn['id']
                    if cur is None: cur = 'lemma ' + enclosing_item(text, n)
            elif l.startswith(';; ') and not l.startswith(';; gen') and l.startswith((';; Function-', ';; Recursive', ';; Broadcast')):
                if not l.startswith(';; Function-Def'): cur = None
            elif cur and l.strip().startswith('(assert'):
                per[cur] = per.get(cur, 0) + 1
    return per

class Result: pass

def prove(workdir, want_log=True, repo=None, smoke=False, max_rounds=10, threads=8):
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, 'gen.rs')
    degrade, omit, rounds, notes = {}, set(), 0, {}
    res = Result(); res.walls = []
    while True:
        rounds += 1
        kw = {'repo': repo} if repo else {}
        g = Gen(degrade=set(degrade), omit=omit, smoke=smoke, **kw)
        text = g.run(TEMPLATES)
        open(path, 'w').write(text)
        logdir = os.path.join(workdir, 'log')
        shutil.rmtree(logdir, ignore_errors=True)
        v = run_verus(path, logdir if want_log else None, threads=threads)
        res.walls.append(round(v['wall'], 2))
        vr = (v['json'] or {}).get('verification-results') or {}
        if v['timeout'] or (v['json'] is None and not v['diags']):
            res.crashed = 'verifier timed out' if v['timeout'] else 'verifier gave no result: ' + v['err'][-500:]
            break
        proof_stage = vr.get('verified') is not None and not vr.get('encountered-vir-error') and (vr.get('success') or vr.get('errors', 0) > 0 or vr.get('verified', 0) > 0)
        if proof_stage:
            res.crashed = None
            break
        # typing or unsupported-feature errors: leave those function bodies out and try again
        hit = False
        for d in v['diags']:
            f = owner(g, d)
            if f is None: continue
            why = 'verifier does not accept it: ' + d['message'][:200]
            if f['id'] not in degrade and f['status'] == 'extracted':
                degrade[f['id']] = why; hit = True
            elif f['id'] not in omit and (f['id'] in degrade or f['status'] == 'lost'):
                omit.add(f['id']); degrade[f['id']] = why; hit = True
        if not hit or rounds >= max_rounds:
            res.crashed = 'the extracted file does not type-check: ' + '; '.join(d['message'][:160] for d in v['diags'][:3])
            break
    res.g, res.text, res.v, res.rounds, res.degrade, res.path = g, text, v, rounds, degrade, path
    res.fn = {}
    for f in g.fns:
        st = 'undecided' if res.crashed else 'accepted'
        why = res.crashed or ''
        if f['status'] != 'extracted' or f['id'] in degrade:
            st, why = 'undecided', degrade.get(f['id']) or f.get('reason', '')
        res.fn[f['id']] = dict(id=f['id'], file=f['file'], props=f['props'], status=st, why=why, failures=[], loc=f.get('loc', 0))
    res.lemma_failures = []
    def failing(diags):
        per, lem = {}, {}
        for d in diags:
            f = owner(g, d)
            und = any(u in d['message'].lower() for u in UNDECIDED)
            item = dict(message=d['message'], rendered=d.get('rendered', ''), undecided=und)
            if f is None:
                n = spans(d)[0][0] if spans(d) else 1
                item['lemma'] = enclosing_item(text, n)
                lem.setdefault(item['lemma'], []).append(item)
            else: per.setdefault(f['id'], []).append(item)
        return per, lem
    if not res.crashed:
        per, lem = failing(v['diags'])
        # what one search missed another may find: an obligation counts as failed only if no attempt proves its function
        for extra in (('--smt-option', 'smt.random_seed=11', '--rlimit', '30', '-V', 'spinoff-all'), ('--smt-option', 'smt.random_seed=23', '--smt-option', 'smt.arith.solver=2', '--rlimit', '30')):
            if not (per or lem): break
            w = run_verus(path, None, threads=threads, timeout=150, extra=extra)
            res.walls.append(round(w['wall'], 2))
            wr = (w['json'] or {}).get('verification-results') or {}
            if w['timeout'] or wr.get('verified') is None: continue
            per2, lem2 = failing(w['diags'])
            per = {k: x for k, x in per.items() if k in per2}
            lem = {k: x for k, x in lem.items() if k in lem2}
            if not per2 and not lem2: vr = wr
        for k, x in per.items(): res.fn[k]['failures'] += x
        for x in lem.values(): res.lemma_failures += x
        for r in res.fn.values():
            if r['failures']:
                if all(x['undecided'] for x in r['failures']):
                    r['status'], r['why'] = 'undecided', r['failures'][0]['message']
                else:
                    r['status'] = 'failed'
        # a failed function the diagnostics did not attribute
        ft = ((v['json'].get('times-ms') or {}).get('smt') or {})
        if vr.get('errors', 0) > 0 and not v['diags']:
            res.crashed = 'errors reported without a location'
    res.obl = obligations(logdir, g, text) if want_log and os.path.isdir(logdir) else {}
    tm = (v['json'] or {}).get('times-ms') or {}
    res.smt_ms = (tm.get('smt') or {}).get('smt-run', 0)
    res.verified = vr.get('verified', 0)
    shutil.rmtree(logdir, ignore_errors=True)
    return res

def trusted(text):
    """Mechanical scan: everything in the generated file the verifier takes on trust."""
    out = []
    ls = text.split('\n')
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith('#[verifier::external_body]') or s.startswith('#[verifier::external_type_specification]') or s.startswith('#[verifier::external'):
            for k in range(i + 1, min(i + 5, len(ls))):
                t = ls[k].strip()
                if t and not t.startswith('#'):
                    out.append('external: ' + re.sub(r'\s+', ' ', t)[:140]); break
        elif re.match(r'(pub\s+)?assume_specification', s):
            out.append('assumed contract: ' + re.sub(r'\s+', ' ', s)[:160])
        elif re.search(r'\baxiom\s+fn\b', s):
            out.append('axiom: ' + re.sub(r'\s+', ' ', s)[:140])
        elif re.search(r'\b(assume|admit)\s*\(', s) and not s.startswith('//'):
            out.append('assume: ' + s[:140])
        elif re.search(r'\buninterp\s+spec\s+fn\b', s):
            out.append('uninterpreted: ' + re.sub(r'\s+', ' ', s)[:140])
    return sorted(set(out))

if __name__ == '__main__':
    r = prove('/tmp/v/prove')
    print('crashed', r.crashed, 'rounds', r.rounds, r.walls, 'smt', r.smt_ms, 'verified', r.verified, 'obl', sum(r.obl.values()))
    for k, f in r.fn.items():
        if f['status'] != 'accepted': print(f['status'], k, f['why'][:200], [x['message'] for x in f['failures']])
    for x in r.lemma_failures: print('LEMMA', x['lemma'], x['message'])
    if '-v' in sys.argv:
        print(json.dumps(r.obl, indent=1)); print('\n'.join(trusted(r.text)))
