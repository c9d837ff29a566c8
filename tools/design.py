"""DESIGN.md from tools/design.md, tools/registry.py, known_findings.json and seeded/."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'harness'), os.path.join(V, 'tools')]
import registry
txt = open(os.path.join(V, 'tools', 'design.md')).read()
ids = [r['id'] for r in registry.R]
for i in ids:
    assert '**%s**' % i in txt, 'no design for ' + i
fixed = '\n'.join('- `%s`' % o['text'] for o in json.load(open(os.path.join(V, 'known_findings.json'))) if o['kind'] == 'fixed')
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = []
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    n, m = f.split('/')[-2], json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (m['property'], n, m['needs'], m['what_it_breaks'], caught.get(n, 'not run')))
rows.sort()
txt = txt.replace('@FIXED@', fixed).replace('@SEEDED@', '| property | id | needs | breaks | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(txt)
print(len(rows), 'planted bugs')
