"""rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/s*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs']))
f = V + '/DESIGN.md'
s = open(f).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '<!-- seeds -->' in s: s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
else: s = s.replace('SEEDTABLE', t)
open(f, 'w').write(s)
