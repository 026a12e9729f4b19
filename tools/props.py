#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    d['_note'] = note or ''
    P.append(d)

def na(id, reason):
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith('_')}) + '\n')
nas = {x['property'] for x in NA}
checks = []
for d in P:
    if d['id'] in nas: continue
    assert os.path.exists(os.path.join(HERE, 'harness', d['id'] + '.json')), d['id']
    checks.append(dict(property=d['id'], quick_cmd='bash check.sh %s quick' % d['id'],
        thorough_cmd='bash check.sh %s thorough' % d['id'],
        technique='bounded symbolic execution of the real Go code (go/ssa IR rebuilt from /repo on every run, inputs/orders/schedules symbolic) with an SMT solver (z3) deciding each assertion over all values within the bounds; counterexamples replayed on the natively compiled code',
        level='model_checking', level_note=d['_note'] or 'Exhaustive within the stated bounds (see evidence bounds); nothing is claimed outside them.'))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NA,
           hooks=dict(guard='none', enable='no hooks in /repo: harness files are added through a build overlay (zz_verif_*.go), /repo itself is not instrumented', source_commits=[]))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1); f.write('\n')
print(len(P), 'properties', len(checks), 'checks', len(NA), 'n/a')

# DESIGN.md from its template
def bounds(id):
    h = json.load(open(os.path.join(HERE, 'harness', id + '.json')))
    out = []
    for g in h['groups']:
        for e in g['entries']:
            out.append('  - `%s/%s`: %s' % (g['pkg'], e['name'], e.get('bounds', '')))
    for a in h.get('assumptions', []): out.append('  - assumed: ' + a)
    return '\n'.join(out)
t = open(os.path.join(HERE, 'tools', 'DESIGN.tmpl.md')).read()
sec = []
for d in P:
    s = '### %s %s\n\n%s\n\nDecided over: %s. Why not tests: %s\n' % (d['id'], d['title'], d['statement'], d['quantifier']['text'], d['why_tests_cant'])
    if d['id'] in nas:
        s += '\nNot applicable: %s\n' % [x['reason'] for x in NA if x['property'] == d['id']][0]
    else:
        s += '\nEntries and bounds (oracle: the assertions of the harness, written from the statement):\n' + bounds(d['id']) + '\n'
    sec.append(s)
rows = []
sd = os.path.join(HERE, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    rows.append('- %s (%s): %s. Needs: %s.' % (s, m['property'], m['what_it_breaks'], m['needs']))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(sec)).replace('@@SEEDS@@', '\n'.join(rows)))
