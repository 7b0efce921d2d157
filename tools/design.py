"""Write DESIGN.md from tools/design_*.{md,json} and known_findings.json."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
from mc import registry as R  # noqa
head = open(os.path.join(here, 'design_head.md')).read()
tail = open(os.path.join(here, 'design_tail.md')).read()
det = json.load(open(os.path.join(here, 'design_props.json')))
known = json.load(open(os.path.join(root, 'known_findings.json')))
out = [head]
for p in R.PROPS:
    d = det[p['id']]
    out.append(f"### {p['id']} {p['title']}\n\n{d[0]}\n\n"
               f"*Bounds (quick / thorough):* {d[1]}. "
               f"*Limits:* {p['level_note']}\n")
fixes = '\n'.join('* ' + x for x in known['fixed'])
finds = '\n'.join(f"* {x['property']}: {x['what']}"
                  for x in known['findings'])
seeds = ''
sd = os.path.join(root, 'seeded')
table = json.load(open(os.path.join(here, 'seeded_results.json')))
rows = []
for n in sorted(table):
    rows.append(f"| {n} | {table[n]['property']} | {table[n]['needs']} | "
                f"{table[n]['caught_by']} |")
tail = tail.replace('@FIXES@', fixes).replace('@FINDINGS@', finds)
tail = tail.replace('@SEEDS@', '\n'.join(rows))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n' + tail)
