"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {'C07-angles-of-first-scan': 'not decided (exit 2): a flag set in the loop over the scans cannot be summarised'}
rows = ['| planted bug | property | what it needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], missed.get(s, 'check %s' % m['property'])))
p = os.path.join(here, 'DESIGN.md')
t = open(p).read()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end of seeds -->'
if '@SEEDS@' in t:
    t = t.replace('@SEEDS@', table)
else:
    t = re.sub(r'<!-- seeds -->.*<!-- end of seeds -->', lambda _: table, t, flags=re.S)
open(p, 'w').write(t)
