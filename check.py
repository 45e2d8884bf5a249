#!/usr/bin/env python3
"""Decides one property on /repo's current tree:  check.py C09 [--tier quick|thorough]   (or --setup)

1. cuts the functions under contract out of /repo/src and has Verus decide every obligation (vx/);
2. builds driver/ against /repo and runs this property's executable oracle: the bounded stand-in for the functions no
   contract reaches, and the search for a failing input when an obligation fails.
Exit 0: nothing broken. Exit 1 with a VIOLATION line: broken."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vx'))
REPO = os.environ.get('PARCODE_REPO', '/repo')
BUILD = os.path.join(V, '.build')
from config import CFG  # noqa

def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'; e['RUST_BACKTRACE'] = '0'; e['RUSTC_WRAPPER'] = ''
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET'): e.pop(k, None)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    return e

def build_driver(profile, out):
    t = time.time()
    src = os.path.join(BUILD, 'driver-src')
    # work on a copy so that cargo never touches a committed file
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(V, 'driver'), src, ignore=shutil.ignore_patterns('target'))
    if REPO != '/repo':
        p = os.path.join(src, 'Cargo.toml'); s = open(p).read().replace('"/repo', f'"{REPO}'); open(p, 'w').write(s)
    try:
        r = subprocess.run(['cargo', 'build', '--offline', '--profile', profile, '--manifest-path', os.path.join(src, 'Cargo.toml')],
                           capture_output=True, text=True, env=env(), timeout=600, cwd=src)
        out['ok'], out['log'] = r.returncode == 0, r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        out['ok'], out['log'] = False, 'timed out'
    out['bin'] = os.path.join(BUILD, 'driver', profile, 'pdriver')
    out['wall'] = round(time.time() - t, 1)

def run_driver(binary, prop, tier, seed, budget, hard, only=None):
    """One run of the executable oracle. Returns (result json or None, failure or None)."""
    work = tempfile.mkdtemp(prefix='parcode-check.')
    prog = os.path.join(work, 'progress')
    cmd = [binary, prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget), '--progress', prog, '--scratch', os.path.join(work, 's'), '--hang', '60']
    if only: cmd += ['--only', only]
    e = env(); e['TMPDIR'] = work
    def case():
        try: return open(prog).read()
        except OSError: return ''
    try:
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=hard, env=e, cwd=work)
        except subprocess.TimeoutExpired:
            return None, dict(case='', kind='time', msg=f'no result within {hard} s', inconclusive=True)
        res = None
        for l in r.stdout.split('\n'):
            if l.startswith('RESULT '):
                try: res = json.loads(l[7:])
                except ValueError: pass
            if l.startswith('HANG '):
                return None, dict(case=l[5:], kind='hang', msg='no progress for 60 s')
        if res is not None: return res, None
        if r.returncode == -9:   # killed from outside: memory, not a verdict
            return None, dict(case=case(), kind='killed', msg='killed', inconclusive=True)
        return None, dict(case=case(), kind='crash', msg=f'process ended with status {r.returncode}: {r.stderr[-1500:]}')
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--setup', action='store_true')
    ap.add_argument('--no-driver', action='store_true'); ap.add_argument('--replay')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    if a.setup:
        d = {}; build_driver('quick', d)
        print('driver', 'built' if d['ok'] else 'NOT built: ' + d['log'], f'{d["wall"]} s')
        return 0 if d['ok'] else 1
    if a.replay: return replay(a.replay)
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    cfg = CFG[prop]
    t0 = time.time()
    profile = 'release' if tier == 'thorough' else 'quick'
    drv = {}
    th = threading.Thread(target=build_driver, args=(profile, drv))
    if not a.no_driver: th.start()
    # ---- contracts
    work = tempfile.mkdtemp(prefix='parcode-prove.')
    pr, perr = None, None
    try:
        from prove import prove, trusted
        try: pr = prove(work, repo=REPO)
        except Exception as ex:      # a source file the extractor cannot read decides nothing
            perr = f'{type(ex).__name__}: {ex}'
        verdict = contract_verdict(prop, cfg, pr, perr)
        vac = vacuity(prop, work, tier, pr) if pr and not pr.crashed else {}
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # ---- executable oracle
    res, fail = None, None
    if not a.no_driver:
        th.join()
        if drv['ok']:
            budget = {'quick': cfg.get('budget', 25), 'thorough': cfg.get('budget_thorough', 420)}[tier]
            res, fail = run_driver(drv['bin'], prop, tier, seed, budget, hard=max(120, budget + 90))
            clean = res is not None and not res['failures'] and not fail
            if clean and verdict['failed'] and tier == 'quick':
                # an obligation failed: search harder for an input that shows it
                r2, f2 = run_driver(drv['bin'], prop, 'thorough', seed, 150, hard=260)
                if f2 and not f2.get('inconclusive'): fail = f2
                if r2 and r2['failures']: res = r2
    findings, status = [], 0
    lines = []
    cases = []
    if fail and not fail.get('inconclusive'): cases.append(fail)
    if res: cases += res['failures']
    known = load_known(prop)
    for k in (res or {}).get('known', []):
        if k['id'] in known: lines.append(f'KNOWN-FINDING: property={prop} {known[k["id"]]}')
        else: cases.append(dict(case=k['id'], kind='unlisted', msg=k['msg']))
    lines = list(dict.fromkeys(lines))
    if cases or verdict['failed']:
        status = 1
        path = os.path.join(V, 'replays', f'{prop}-{tier}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        rec = dict(property=prop, tier=tier, seed=seed, failing_inputs=cases[:10],
                   replay_cmd=(f'{drv.get("bin")} {prop} --tier {tier} --seed {seed} --only \'{cases[0]["case"]}\'' if cases else None),
                   failed_obligations=[dict(function=f['id'], file=f['file'], obligation=x['message'], verifier_output=x['rendered'][:4000]) for f in verdict['failed'] for x in f['failures']],
                   note='' if cases else 'the verifier gives no counterexample and the bounded search found no failing input')
        json.dump(rec, open(path, 'w'), indent=1)
        for c in cases[:3]: lines.append(f'  failing input [{c["case"]}] {c["kind"]}: {c["msg"][:400]}')
        for f in verdict['failed']:
            for x in f['failures'][:3]: lines.append(f'  failed obligation in {f["file"]} {f["id"]}: {x["message"]}')
        lines.append(f'VIOLATION property={prop} replay={path}' + ('' if cases else ' no-failing-input-found'))
    write_evidence(prop, cfg, tier, seed, t0, pr, perr, verdict, vac, drv, res, fail, 1 if status else 0)
    print(f'{prop} [{tier}] contracts: {verdict["summary"]}; oracle: ' + (f'{res["cases"]} cases, {res["evaluations"]} evaluations' if res else (fail or {}).get('msg', 'not built: ' + drv.get('log', '')[-300:])[:300]) + f'; {time.time() - t0:.0f} s')
    for l in lines: print(l)
    return status

def contract_verdict(prop, cfg, pr, perr):
    """Accepted / failed / undecided functions this property depends on."""
    out = dict(accepted=[], failed=[], undecided=[], lemmas_failed=[])
    if pr is None:
        return dict(out, summary='undecided (' + (perr or '')[:200] + ')')
    for f in pr.fn.values():
        if prop in f['props']: out[f['status']].append(f)
    # A lemma speaks about extracted constants and types only: it fails when one of those changed meaning.
    for x in pr.lemma_failures:
        m = re.match(r'thm_(c\d+)_', x['lemma'])
        if m and m.group(1).upper() == prop and not x['undecided']:
            out['failed'].append(dict(id='lemma ' + x['lemma'], file='vx', props=[prop], failures=[x], status='failed', why=''))
    n = len(out['accepted']); t = n + len(out['failed']) + len(out['undecided'])
    s = f'{n}/{t} functions accepted'
    if out['undecided']: s += ', undecided: ' + ', '.join(f'{f["id"]} ({f["why"][:80]})' for f in out['undecided'][:4])
    if pr.crashed: s += f' (verifier: {pr.crashed[:200]})'
    return dict(out, summary=s)

def vacuity(prop, work, tier, pr):
    """Puts an impossible claim behind every precondition of this property's functions: each must be rejected."""
    from gen import Gen
    from prove import TEMPLATES, run_verus, owner
    ids = {f['id'] for f in pr.fn.values() if f['status'] == 'accepted' and prop in f['props']}
    if not ids: return dict(functions=0, reachable=0, vacuous=[])
    g = Gen(repo=REPO, degrade=set(pr.degrade), smoke='entry:', smoke_ids=ids)
    p = os.path.join(work, 'smoke.rs'); open(p, 'w').write(g.run(TEMPLATES))
    v = run_verus(p)
    hit = {(owner(g, d) or {}).get('id') for d in v['diags']}
    return dict(functions=len(ids), reachable=len(ids & hit), vacuous=sorted(ids - hit), wall_s=round(v['wall'], 1))

def load_known(prop):
    out = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) (\S+) (.*)$', l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(2) + ' ' + m.group(3)
    return out

def write_evidence(prop, cfg, tier, seed, t0, pr, perr, verdict, vac, drv, res, fail, violations):
    from prove import trusted
    mine = verdict['accepted'] + verdict['failed'] + verdict['undecided']
    ids = {f['id'] for f in mine}
    obl = pr.obl if pr else {}
    lem = {k: v for k, v in obl.items() if k.startswith('lemma thm_' + prop.lower() + '_')}
    total = sum(obl.get(i, 0) for i in ids) + sum(lem.values())
    disc = sum(obl.get(f['id'], 0) for f in verdict['accepted']) + (sum(lem.values()) if not verdict['lemmas_failed'] else 0)
    for f in verdict['failed']: disc += max(0, obl.get(f['id'], 0) - len(f['failures']))
    cov = dict(
        obligations=total, discharged=disc,
        obligations_in_the_whole_file=sum(obl.values()),
        checker_cmd='verus (Z3 back end) on the file vx/gen.py extracts from /repo/src on this run' + (': ' + pr.v['cmd'].split(' --log-dir')[0] if pr else ''),
        trusted_base=(trusted(pr.text) if pr and pr.text else []) + ['Verus and Z3', 'the extractor vx/gen.py and its stated rewrites'],
        functions_under_contract=[dict(function=f['id'], file=f['file'], lines=f.get('loc', 0), obligations=obl.get(f['id'], 0), status=f['status'], **({'why': f['why']} if f.get('why') else {})) for f in mine],
        lemmas=[dict(lemma=k[6:], obligations=v) for k, v in lem.items()],
        solver_ms=pr.smt_ms if pr else 0, verifier_wall_s=pr.walls if pr else [],
        extraction_rewrites=dict(global_rules=pr.g.used, local=[x for x in pr.g.localrw if x.split(':')[0] in {i.split(':')[0] for i in ids}]) if pr else {},
        vacuity=vac,
        not_under_contract=cfg.get('gaps', []),
        bounded=dict(explanation='executable oracle over the real library; bounded, not counted as proved: ' + cfg.get('oracle', ''),
                     cases=(res or {}).get('cases', 0), skipped_over_budget=(res or {}).get('skipped_over_budget', 0), build_s=drv.get('wall'), inconclusive=(fail or {}).get('msg', '') if not res else ''),
        evaluations=(res or {}).get('evaluations', 0), distinct_nontrivial=(res or {}).get('distinct', 0),
        rule='a case is one generated value, layout, byte string or fault schedule run through the real library and compared with an independent oracle; distinct = distinct case fingerprints. ' + cfg.get('oracle', ''),
        samples=(res or {}).get('samples', [])[:12])
    if not cov['samples']: cov['samples'] = ['(none: oracle did not run)']
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
              assumptions=cfg.get('assumptions', []) + ['64-bit target (usize is 8 bytes)', 'default features plus lz4_flex'],
              wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

def replay(path):
    """Replays a recorded failing input on the tree as it is now."""
    r = json.load(open(path)); d = {}
    build_driver('quick', d)
    if not d['ok']: print(d['log']); return 2
    for c in r['failing_inputs'][:1]:
        res, fail = run_driver(d['bin'], r['property'], r['tier'], r['seed'], 200, 300, only=c['case'])
        print(json.dumps(dict(result=res, failure=fail), indent=1)); return 0
    print(json.dumps(r['failed_obligations'], indent=1)); return 0

if __name__ == '__main__':
    sys.exit(main())
