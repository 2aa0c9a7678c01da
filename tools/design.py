"""Fills the generated sections of DESIGN.md (kept between markers)."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json'))
lv = {c['property']: c for c in M['checks']}
def sec(name, text):
    global s
    pat = re.compile(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), re.S)
    blk = '<!-- %s -->\n%s\n<!-- /%s -->' % (name, text, name)
    s = pat.sub(lambda m: blk, s) if pat.search(s) else s.replace(name, blk, 1)
s = open(V + '/DESIGN.md').read()
t = []
for p in P:
    c = glob.glob(V + '/checks/%s_*.py' % p['id'].lower())
    specs = sorted(set(re.findall(r"R\.(?:model|check)\(\s*'(\w+)'", open(c[0]).read()))) if c else []
    t.append('### %s %s\n%s\n\n- Decided by: specification modules %s; driver `%s`.\n- Bounds: %s.\n- Why tests cannot: %s\n' % (
        p['id'], p['title'], p['statement'], ', '.join('`%s`' % q for q in specs), os.path.relpath(c[0], V) if c else '-',
        lv.get(p['id'], {}).get('level_note', 'not claimed'), p['why_tests_cant']))
sec('PROPTABLE', '\n'.join(t))
K = json.load(open(V + '/known_findings.json'))
sec('DEFECTS', '\n'.join('- %s (%s): %s' % (k['id'], k['status'], k.get('entry') or k['what']) for k in K))
rows = ['| bug | property | needs | caught |', '|---|---|---|---|']
res = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], res.get(b, 'by %s' % m['property'])))
sec('SEEDED', '\n'.join(rows))
sec('NOTAPP', '\n'.join('- %s: %s' % (n['property'], n['reason']) for n in M['not_applicable']) or 'None of the listed properties.')
open(V + '/DESIGN.md', 'w').write(s)
