#!/usr/bin/env python3
"""Writes DESIGN.md from tool/doc/design.md, the seeded bugs and the manifest."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(R + '/seeded/*/meta.json'):
    m = json.load(open(f)); rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
t = "| bug | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % (b, a, c.replace('|', '/'), d.replace('|', '/')) for a, b, c, d in sorted(rows))
x = open(R + '/tool/doc/design.md').read().replace('SEEDTABLE', t)
x += "\n## 6. Not applicable\n\n" + "\n".join("* **%s** %s" % (n['property'], n['reason']) for n in json.load(open(R + '/MANIFEST.json'))['not_applicable']) + "\n"
open(R + '/DESIGN.md', 'w').write(x)
