"""rewrite the table of seeded changes in DESIGN.md"""
import json, glob, os
rows = []
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs'].replace('|', '/')))
s = open('/verif/DESIGN.md').read()
a, b = '<!-- seeded table -->\n', '<!-- end -->\n'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '\n| change | caught by | needs |\n|----|----|----|\n' + '\n'.join(rows) + '\n\n' + s[j:]
open('/verif/DESIGN.md', 'w').write(s)
