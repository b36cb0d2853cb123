"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json (for people; no check runs it)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
        m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
t = '<!-- seedtable -->\n\n| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n\n<!-- /seedtable -->'
p = here + '/DESIGN.md'
s = open(p).read()
s2 = re.sub(r'<!-- seedtable -->.*?<!-- /seedtable -->', lambda m: t, s, flags=re.S)
if s2 == s and 'SEEDTABLE' in s:
    s2 = s.replace('SEEDTABLE', t)
open(p, 'w').write(s2)
