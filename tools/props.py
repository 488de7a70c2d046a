"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, check=None, na=None):
    P.append(dict(j=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)), check=check, na=na))
TECH = 'deterministic simulation: seeded schedules and faults, '
exec(open(os.path.join(VERIF, 'tools', 'proplist.py')).read())
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p['j']) + '\n')
import checks
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
    hooks=dict(guard='JOGASAKI_SIM', enable='-DJOGASAKI_SIM, given by tools/build.py through cflags in tools/harnesses.py', source_commits=['82e5b25']),
    notes='One hook: two table sizes become adjustable. Every other seam is a link-time interposition, an instrumentation callback or a stand-in for a sibling library. See DESIGN.md.')
for p in P:
    j = p['j']
    if p['check'] and j['id'] in checks.C:
        m['checks'].append(dict(property=j['id'], quick_cmd='python3 tools/check.py ' + j['id'], thorough_cmd='python3 tools/check.py %s --thorough' % j['id'],
            evidence_file='evidence/%s.json' % j['id'], technique=TECH + p['check'][0], level='exploration', level_note=p['check'][1]))
    else: m['not_applicable'].append(dict(property=j['id'], reason=p['na'] or 'not yet built'))
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
for p in P:
    assert len(p['j']['title']) <= 80, p['j']['title']
    for fn in p['j']['anchors']['files']: assert os.path.exists('/repo/' + fn), fn
print(len(P), 'properties', len(m['checks']), 'claimed')
