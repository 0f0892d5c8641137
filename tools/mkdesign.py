"""Updates the table of planted bugs within DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | caught by | what it breaks | needs |', '| --- | --- | --- | --- |']
esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], esc(m['what_it_breaks']), esc(m['needs'])))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n%s\n<!-- /seeded -->' % '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
