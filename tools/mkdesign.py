"""rewrites the generated parts of DESIGN.md (between <!-- name --> and <!-- /name -->)."""
import os, re, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
n = sum(l.startswith('fix:') for l in subprocess.run(
    ['git', '-C', '/repo', 'log', '--format=%s'], capture_output=True, text=True).stdout.splitlines())
rows = ['| seed | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['needs'], m.get('caught', m['property'])))
for name, text in (('nfix', str(n)), ('seeds', '\n' + '\n'.join(rows) + '\n')):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name),
               lambda _: '<!-- %s -->%s<!-- /%s -->' % (name, text, name), s, flags=re.S)
open(p, 'w').write(s)
