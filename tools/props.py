"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])]), _t=technique, _n=note))

exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks = []
for p in P:
    if glob.glob(os.path.join(V, 'checks', p['id'].lower() + '_*.py')):
        checks.append(dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'],
                           thorough_cmd='./check.sh %s thorough' % p['id'],
                           technique=p['_t'], level='model_checking', level_note=p['_n'],
                           evidence_file='evidence/%s.json' % p['id']))
na = [dict(property=p['id'], reason='check not built yet') for p in P
      if p['id'] not in [c['property'] for c in checks]]
json.dump(dict(version=1, setup_cmd='./setup.sh',
               hooks=dict(guard='VP_UNUSED', enable='no hooks are needed: the library is sequential and its API exposes all observed state', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='TLA+ with TLC; see DESIGN.md. setup_cmd only verifies the toolchain; every check rebuilds the compiled extensions from /repo itself.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
