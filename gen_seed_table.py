"""Rewrites the table of planted changes at the end of DESIGN.md."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
mark = '<!-- seeds'
rows = ['| change | caught by | needs |', '|---|---|---|']
for p in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s |' % (p.split('/')[1], m['property'], m['needs'].replace('|', '/').rstrip('.')))
lines = open('DESIGN.md').read().split('\n')
i = next(k for k, l in enumerate(lines) if l.startswith(mark))
open('DESIGN.md', 'w').write('\n'.join(lines[:i + 1]) + '\n\n' + '\n'.join(rows) + '\n')
