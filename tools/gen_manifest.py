"""Writes MANIFEST.json from vx/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vx'))
from config import CFG
m = dict(version=1, setup_cmd='python3 check.py --setup',
  hooks=dict(guard='none', enable='no hook is needed: the checks use the public API and extract private functions textually', source_commits=[]),
  checks=[dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick', thorough_cmd=f'python3 check.py {p} --tier thorough', technique=c['technique'], level=c['level'], level_note=c['level_note'] or c['technique']) for p, c in sorted(CFG.items())],
  not_applicable=[], notes='One shared checker. Levels: proof = every function listed for the property is under contract and accepted; exploration = the bounded oracle decides, contracts on part of the functions support it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
