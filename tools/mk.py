"""Write properties.jsonl and MANIFEST.json from tools/registry.py and harness/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'harness'), os.path.join(V, 'tools')]
import registry, props
NA = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in registry.R:
        f.write(json.dumps(dict(
            id=r['id'], title=r['title'], statement=r['statement'],
            quantifier=dict(over=r['over'], text=r['text']), why_tests_cant=r['why'],
            anchors=dict(files=r['files'],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in r['state']],
                         mechanism=[dict(name=n, where=w) for n, w in r['mech']],
                         observe_at=r['observe'], hook_needed=None))) + '\n')
        assert len(r['title']) <= 80, r['id']
checks = []
for r in registry.R:
    p = props.PROPS.get(r['id'])
    if p is None:
        NA.append(dict(property=r['id'], reason='no check built yet'))
        continue
    mods = sorted({props.MC[m]['module'] for m in p['mc']})
    trs = sorted({props.SUITES[s]['module'] for s in p['suites']})
    checks.append(dict(
        property=r['id'], quick_cmd='./check %s quick' % r['id'], thorough_cmd='./check %s thorough' % r['id'],
        technique=r['technique'] or ('TLA+ specification checked with TLC (%s) and conformance of the real code to it: '
                                     'generated scenarios run through the implementation, recorded events judged by TLC (%s)'
                                     % (', '.join(mods) or 'executable operators', ', '.join(trs))),
        level='model_checking',
        level_note=r['note'] or ('The specification is checked exhaustively within small constants; the implementation is bound to it on '
                                 'a seeded, structured sample of its input space (counts in the evidence file). Trusts TLC, the '
                                 'binary64 arithmetic overrides in java/hapua and the comparison tolerance of 1e-9.')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NA,
               notes='No hooks in /repo: the checks call its public functions, replace module attributes in the harness process, '
                     'or read its output files.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(registry.R), 'properties', len(checks), 'checks', [n['property'] for n in NA])
