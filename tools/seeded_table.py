#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
rows = ['<!-- seeded -->', '| planted bug | needs | caught by |', '|---|---|---|']
for name in sorted(os.listdir('/verif/seeded')):
    meta = json.load(open(f'/verif/seeded/{name}/meta.json'))
    rows.append(f"| `{name}` | {meta['needs']} | {', '.join(meta.get('caught_by', [meta['property']]))} |")
rows.append('<!-- /seeded -->')
text = open('/verif/DESIGN.md').read()
text = text.replace('SEEDED-TABLE', '<!-- seeded -->\n<!-- /seeded -->')
open('/verif/DESIGN.md', 'w').write(re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '\n'.join(rows), text, flags=re.S))
