"""Planted bugs. seedtool.py make [ID..]: writes seeded/ID from seed_defs and confirms it (builds, stable tests pass, demo passes
without and fails with the patch). seedtool.py check [ID..] [--props C01,..]: runs the checks with the bug applied.
Everything runs on a scratch copy bind-mounted over /repo in a user namespace; /repo itself is not touched."""
import json, os, shutil, subprocess, sys, difflib, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
WT = os.environ.get('SEED_WT', '/tmp/seedwt')

DEMO = r'''#!/bin/bash
# cwd: the repository, already built. Builds demo.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
parcode = { path = "$repo", features = ["lz4_flex"] }
bincode = { version = "2.0", features = ["serde"] }
serde = { version = "1.0", features = ["derive"] }
rayon = "1.11"
[patch.crates-io]
parcode-derive = { path = "$repo/parcode-derive" }
[profile.dev]
debug = false
EOF
python3 - "$repo/Cargo.lock" "$t/Cargo.lock" <<'PY'
import re, sys
s = open(sys.argv[1]).read()
open(sys.argv[2], 'w').write(re.sub(r'\[\[package\]\]\nname = "parcode-derive"\n(?:.+\n)*\n?', '', s))
PY
cd "$t" && export TMPDIR="$t" CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS RUSTC_WRAPPER
cargo build --offline -q || exit 3
mkdir "$t/run" && cd "$t/run" && timeout 200 "$t/target/debug/demo"
'''

def inns(cmd, wt, vf=None, **kw):
    b = f'mount --bind {wt} /repo'
    if vf: b += f' && mount --bind {vf} /verif'
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', b + ' && ' + cmd], capture_output=True, text=True, **kw)

def fresh():
    if not os.path.isdir(WT): subprocess.run(['cp', '-a', '/repo', WT], check=True)
    subprocess.run(['git', '-C', WT, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', WT, 'checkout', '-q', '-f', 'FETCH_HEAD'], check=True)

def make(ids):
    from seed_defs import SEEDS
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for sd in SEEDS:
        if ids and sd['id'] not in ids: continue
        fresh()
        d = os.path.join(V, 'seeded', sd['id'])
        ok = True
        for f, old, new in sd['edits']:
            p = os.path.join(WT, f); s = open(p).read()
            if s.count(old) != 1: print(sd['id'], 'EDIT matches', s.count(old), 'in', f); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        diff = subprocess.run(['git', '-C', WT, 'diff'], capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.rs', 'w').write(sd['demo'])
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = inns('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_t.json', WT)
        try: t = json.load(open('/tmp/seed_t.json'))
        except Exception: print(sd['id'], 'BUILD/TEST FAILED', r.stdout[-300:], r.stderr[-800:]); continue
        passed = set(t.get('passed', t.get('pass', [])))
        miss = [x for x in stable if x not in passed]
        os.remove('/tmp/seed_t.json')
        dm = inns(f'cp -r {d} /tmp/seeddemo && cd /repo && bash /tmp/seeddemo/demo.sh; r=$?; rm -rf /tmp/seeddemo; exit $r', WT)
        subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'])
        d0 = inns(f'cd /repo && bash {d}/demo.sh', WT)
        print(sd['id'], sd['property'], 'tests failing:', miss, '| demo with bug:', dm.returncode, (dm.stdout + dm.stderr)[-160:].replace('\n', ' '), '| demo clean:', d0.returncode, (d0.stderr[-300:] if d0.returncode else ''), '=>', 'GOOD' if not miss and dm.returncode and dm.returncode != 3 and d0.returncode == 0 else 'BAD', flush=True)

def check(ids, props):
    fresh()
    vf = WT + '.verif'
    for i in sorted(os.listdir(V + '/seeded')):
        if ids and i not in ids: continue
        d = f'{V}/seeded/{i}'
        m = json.load(open(d + '/meta.json'))
        subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'])
        r = subprocess.run(['git', '-C', WT, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode: print(i, 'patch does not apply', r.stderr[:200]); continue
        subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', '.build', V + '/', vf + '/'], check=False) if shutil.which('rsync') else (shutil.rmtree(vf, ignore_errors=True), shutil.copytree(V, vf, ignore=shutil.ignore_patterns('.git', '.build')))
        for p in (props or [m['property']]):
            r = inns(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p} --tier quick', WT, vf)
            lines = [l for l in r.stdout.split('\n') if l]
            print(i, m['property'], p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and any(l.startswith('VIOLATION') for l in lines) else 'missed', flush=True)
            for l in lines[:6]: print('    ', l[:260])
            if r.stderr: print('    ERR', r.stderr[-300:])
    subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'])

a = sys.argv[2:]
props = [x[8:].split(',') for x in a if x.startswith('--props=')]
ids = [x for x in a if not x.startswith('--')]
make(ids) if sys.argv[1] == 'make' else check(ids, props[0] if props else None)
