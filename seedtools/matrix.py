"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (all listed bugs were run with mkseed.py -c)."""
import glob, json, os
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(TOP, 'seedtools', 'missed.json')))
head, sep, _ = open(TOP + '/DESIGN.md').read().partition('<!-- planted -->\n')
rows = []
for p in sorted(glob.glob(TOP + '/seeded/*/meta.json')):
    i = p.split('/')[-2]
    m = json.load(open(p))
    c = lambda s: s.replace('|', '\\|')
    rows.append(f"| {i} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {m['property']} | {c(MISSED.get(i, ''))} |\n")
open(TOP + '/DESIGN.md', 'w').write(head + sep + '| id | breaks | needs | caught by | first missed: strengthened |\n|-|-|-|-|-|\n' + ''.join(rows))
