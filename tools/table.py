"""fill the table of planted changes of DESIGN.md (between its markers)"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- table -->', '| change | property | what it breaks |', '| --- | --- | --- |']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s%s | %s |' % (d, m['property'], '' if m.get('caught', True) else ' (missed)', m['what_it_breaks'].replace('|', '/')))
rows.append('<!-- /table -->')
s = open(R + '/DESIGN.md').read()
t = '\n'.join(rows)
s = s.replace('@TABLE@', t) if '@TABLE@' in s else re.sub(r'<!-- table -->.*<!-- /table -->', lambda _: t, s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)
