"""the table of planted changes at the end of DESIGN.md, from seeded/*/meta.json"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
mark = 'property it was written for:\n'
head = s[:s.index(mark) + len(mark)]
rows = []
for n in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', n, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '),
                                         m['needs'].replace('|', '\\|').replace('\n', ' ')))
open(p, 'w').write(head + '\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
