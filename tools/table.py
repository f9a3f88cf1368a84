# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read(); i = s.index('| bug | caught by | what it breaks |')
j = i
while s[j:j+1] == '|': j = s.index('\n', j) + 1
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json')); rows.append(f"| {d} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} |\n")
open(V + '/DESIGN.md', 'w').write(s[:i] + '| bug | caught by | what it breaks |\n|---|---|---|\n' + ''.join(rows) + s[j:])
print(len(rows))
