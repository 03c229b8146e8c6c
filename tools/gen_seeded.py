"""Rewrite the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} |\n")
s = open(R + '/DESIGN.md').read()
head = '| seeded change | caught by | what it needs to manifest |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = i + re.match(r'(\|.*\n)*', s[i:]).end()
open(R + '/DESIGN.md', 'w').write(s[:i] + ''.join(rows) + s[j:])
