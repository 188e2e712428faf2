"""Puts DESIGN.md together: python3 tools/mkdesign.py (head + per property + findings + planted bugs + tail)."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(R, *p)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
man = json.loads(rd('MANIFEST.json'))
out = [rd('tools', 'design_head.md').rstrip(), '', '## 3. The properties', '']
why = json.loads(rd('tools', 'design_why.json'))
for p in props:
    pid = p['id']
    src = os.path.join(R, 'props', pid + '.py')
    if not os.path.exists(src):
        continue
    v = {}
    for n in ast.parse(open(src).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out += [f"### {pid} {p['title']}", '', p['statement'], '']
    out += ['* How: ' + v.get('EXPLANATION', '') + '.']
    ev = os.path.join(R, 'tools', 'design_numbers.json')
    num = json.loads(open(ev).read()).get(pid) if os.path.exists(ev) else None
    if num:
        out += [f"* Size (quick tier, unchanged tree): {num['functions']} functions under contract, {num['contracts']} contracts ({num['modes']}), {num['obligations']} obligations, "
                f"{num['discharged']} discharged ({num['back_ends']}); {num['wall']} s."]
        out += ['* Functions under contract: ' + ', '.join('`' + f + '`' for f in num['fns']) + '.']
    out += ['* Bounded part: ' + v.get('BOUNDED_NOTE', '') + '.']
    out += ['* Assumed: ' + '; '.join(v.get('ASSUMPTIONS', [])) + '.']
    if pid in why:
        out += ['* ' + x for x in why[pid]]
    out += ['']
out += [rd('tools', 'design_mid.md').rstrip(), '']
kf = [l for l in rd('KNOWN_FINDINGS.txt').splitlines() if l and not l.startswith('#')]
out += ['Repaired (property, commit, what failed):', '']
for l in kf:
    if l.startswith('fixed:'):
        out.append('* ' + l[len('fixed: property='):])
out += ['', 'Recorded, not repaired (reported as KNOWN-FINDING):', '']
for l in kf:
    if l.startswith('finding:'):
        out.append('* ' + l[len('finding: property='):])
out += ['', '## 5. Planted bugs', '', rd('tools', 'design_seeds.md').rstrip(), '', '| id | what it breaks | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['what_it_breaks']} | {m['needs']} |")
out += ['', rd('tools', 'design_tail.md').rstrip(), '']
if man.get('not_applicable'):
    out += ['', 'Not applicable: ' + '; '.join(f"{x['property']}: {x['reason']}" if isinstance(x, dict) and 'reason' in x else str(x) for x in man['not_applicable'])]
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
