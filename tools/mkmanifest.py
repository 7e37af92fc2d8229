import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from cones import CONES, BOUNDED
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = 'Contracts on the extracted real functions, discharged by Verus/Z3 on every run from /repo\'s current source; f64 taken as reals with inf/NaN, library contracts trusted; an oracle run against the real crate accompanies every proof.'
checks = [dict(property=i, quick_cmd=f'python3 tools/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {i}',
               technique='contract-based deductive verification (Verus) of mechanically extracted functions', level='proof',
               level_note=NOTE + ((' Bounded instead of proved: ' + '; '.join(f'{k} ({v})' for k, v in BOUNDED[i].items())) if BOUNDED.get(i) else '')) for i in ids if i in CONES]
na = [dict(property=i, reason='contracts not written yet') for i in ids if i not in CONES]
m = dict(version=1, setup_cmd='cargo build --offline -q --manifest-path extract/Cargo.toml && cargo build --offline -q --manifest-path replay/Cargo.toml', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
