"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and the results listed below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', '?')} |")
t = '<!-- seeded table -->\n| change | property | needs | caught by (quick) |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end of table -->'
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeded table -->(.*?<!-- end of table -->)?', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
