"""Writes DESIGN.md from tools/design.in.md, the property list, known findings and the planted bugs."""
import json, os, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, kinds, quant, why, anchors, mech, obs, check=None, na=None): P.append((id, title, quant, why, check, na))
exec(open(os.path.join(VERIF, 'tools', 'proplist.py')).read())
exec(open(os.path.join(VERIF, 'tools', 'checks.py')).read())
out = []
for id, title, quant, why, check, na in sorted(P):
    if na: out.append(f'* **{id} {title}** - not applicable: {na}'); continue
    c = C[id]; hs = ', '.join(h[0] for h in c['harnesses'])
    out.append(f'* **{id} {title}** (`harness/{hs}`) - {check[0]}.\n  Searched: {quant}. Workload per run: {c["workload"]}.\n  Beyond the tests: {why}')
fx = [l.strip()[7:] for l in open(os.path.join(VERIF, 'known_findings.txt')) if l.startswith('fixed:')]
fixes = '\n'.join('* ' + f for f in fx)
sd = []
for m in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    sd.append(f'| {i} | {d["property"]} | {d["what_it_breaks"]} | {d["needs"]} | {d.get("caught_by", d["property"])} |')
seeds = '| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(sd)
t = open(os.path.join(VERIF, 'tools', 'design.in.md')).read()
mut = open(os.path.join(VERIF, 'tools', 'mutations.md')).read()
for k, v in (('@@PROPS@@', '\n'.join(out)), ('@@FIXES@@', fixes), ('@@SEEDS@@', seeds), ('@@MUT@@', mut)): t = t.replace(k, v)
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(t)
