"""The table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'],
                ' '.join(d['needs'].split()).replace('|', '\\|')))
p = here + '/DESIGN.md'
s = open(p).read()
head = '<!-- planted -->'
s = s[:s.index(head)] + head + '\n| planted bug | caught by the check of | what it needs to show |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
