"""Collects the figures of the last runs for DESIGN.md: python3 tools/mknumbers.py"""
import collections, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(R, 'tools', 'design_numbers.json')
o = json.load(open(f)) if os.path.exists(f) else {}
for p in sorted(glob.glob(os.path.join(R, 'evidence', 'C*.json'))):
    e = json.load(open(p))
    c = e['coverage']
    modes = collections.Counter(x['mode'] for x in c.get('proofs', []))
    o[e['property']] = dict(functions=len(c['functions_under_contract']), contracts=len(c.get('proofs', [])), modes=', '.join(f'{v} {k}' for k, v in sorted(modes.items())),
                            obligations=c['obligations'], discharged=c['discharged'], back_ends=', '.join(f'{k} {v}' for k, v in c['back_ends'].items()),
                            wall=round(e.get('wall_s') or e.get('wall_seconds') or c.get('wall_s') or 0), fns=[x.replace('tf2onnx.', '') for x in c['functions_under_contract']])
json.dump(o, open(f, 'w'), indent=1)
