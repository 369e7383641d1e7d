#!/usr/bin/env python3
"""mkplant.py: helper which makes /verif/seeded/<id>/ from replacements in /repo.

    plant(id, property, needs, breaks, [(file, old, new), ...], demo)
"""
import difflib, json, os, shutil
def plant(id, property, needs, breaks, edits, demo):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(f'/repo/{f}').read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    out = ''
    for f, s in files.items():
        a = open(f'/repo/{f}').read().splitlines(True)
        out += ''.join(difflib.unified_diff(a, s.splitlines(True), f'a/{f}', f'b/{f}'))
    open(f'{d}/patch.diff', 'w').write(out)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/demo.rs', 'w').write(demo)
    shutil.copy('/verif/demo_template.sh', f'{d}/demo.sh')
    os.chmod(f'{d}/demo.sh', 0o755)
