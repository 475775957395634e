"""Writes the generated sections of DESIGN.md (property table, planted bugs) between markers. Run by hand."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(here + '/MANIFEST.json'))
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(here + '/properties.jsonl')}
bugs = []
results = {}
p = here + '/data/detection.txt'
if os.path.exists(p):
    for l in open(p):
        w = l.split()
        if len(w) >= 2:
            results[w[0]] = ' '.join(w[1:])
for d in sorted(glob.glob(here + '/seeded/*')):
    b = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    bugs.append('| %s | %s | %s | %s | %s |' % (n, b['property'], b['what_it_breaks'], b['needs'], results.get(n, 'not run')))
txt = '| planted bug | property | what it breaks | what it needs | detected by |\n|---|---|---|---|---|\n' + '\n'.join(bugs) + '\n'
s = open(here + '/DESIGN.md', encoding='utf-8').read()
s = re.sub(r'(?s)(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda k: k.group(1) + txt + k.group(2), s)
open(here + '/DESIGN.md', 'w', encoding='utf-8').write(s)
