# Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rows = ['| seed | property | what it does | caught |', '|---|---|---|---|']
missed = set(open(os.path.join(R, 'seeded', 'MISSED')).read().split()) if os.path.exists(os.path.join(R, 'seeded', 'MISSED')) else set()
for f in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), 'no' if i in missed else 'yes'))
p = os.path.join(R, 'DESIGN.md'); s = open(p).read(); a = s.index('<!-- seeds -->') + 14; b = s.index('<!-- /seeds -->')
open(p, 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
