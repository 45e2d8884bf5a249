import sys, subprocess, json, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *
smoke = 'smoke' in sys.argv
args = [a for a in sys.argv[1:] if a != 'smoke']
tmpl = sorted(f for f in os.listdir(HERE) if f.endswith('.vt'))
out = '/tmp/v/gen.rs'; os.makedirs('/tmp/v', exist_ok=True)
def go(smoke):
    g = Gen(smoke=smoke); text = g.run(tmpl)
    open(out, 'w').write(text)
    for l in g.lost: print('LOST', l)
    r = subprocess.run(['verus', '--edition=2024', out, '--num-threads', '8', '--triggers-mode', 'silent', '--multiple-errors', '1' if smoke else '3'] + args, capture_output=True, text=True)
    return g, r
if smoke:
    todo = True
    while todo:
        g, r = go(todo)
        bad = set()
        for m in re.finditer(r'--> /tmp/v/gen.rs:(\d+)', r.stderr):
            n = int(m.group(1))
            for f in g.fns:
                if f['start'] <= n < f['end']: bad.add(f['id'])
        new = {f['id'] for f in g.fns if f['id'] not in bad and (todo is True or f['id'] in todo)}
        if new == todo or not bad: break
        todo = new
    print('VACUOUS:', sorted(new), r.stdout[-300:], r.stderr[:3000] if not bad else '')
else:
    g, r = go(False)
    print(r.stdout[-6000:]); print(r.stderr[:9000])
