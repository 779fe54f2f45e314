"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    c = [x.replace('|', '\\|') for x in (m['what_it_breaks'], m['needs'])]
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], c[0], c[1]))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', text, flags=re.S)
open(path, 'w').write(text)
