#!/usr/bin/env python3
"""mkplanted.py: fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and plants/caught.json"""
import json, os, re
caught = json.load(open('plants/caught.json'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for name in sorted(os.listdir('seeded')):
    meta = json.load(open(f'seeded/{name}/meta.json'))
    by = caught.get(name, 'not tried')
    rows.append(f"| {name} | {meta['property']} | {meta['needs']} | {by} |")
text = open('DESIGN.md').read()
text = re.sub(r'<!-- planted -->.*?<!-- end of planted -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- end of planted -->', text, flags=re.S)
open('DESIGN.md', 'w').write(text)
