"""tools/seedtable.py -- writes the table of planted bugs in DESIGN.md (between its two marks) from seeded/*/meta.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '| --- | --- | --- | --- |']
for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    with open(os.path.join(HERE, 'seeded', n, 'meta.json')) as fp:
        m = json.load(fp)
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs']))
p = os.path.join(HERE, 'DESIGN.md')
with open(p) as fp:
    text = fp.read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = text.index(a) + len(a), text.index(b)
with open(p, 'w') as fp:
    fp.write(text[:i] + '\n'.join(rows) + '\n' + text[j:])
