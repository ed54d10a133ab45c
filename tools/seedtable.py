"""writes the table of seeded changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| change | what it breaks | needs | reported by |', '|---|---|---|---|']
for d in sorted(glob.glob(top + '/seeded/*/meta.json')):
    m = json.load(open(d))
    cell = lambda s: ' '.join(str(s).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), cell(m['what_it_breaks']), cell(m['needs']), m['property']))
rows.append('<!-- /seeds -->')
p = top + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', t)
else:
    s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
