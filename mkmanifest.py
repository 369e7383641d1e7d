#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of harnesses which exist."""
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
reasons = json.load(open(f'{here}/not_applicable.json')) if os.path.exists(f'{here}/not_applicable.json') else {}
notes = json.load(open(f'{here}/levels.json')) if os.path.exists(f'{here}/levels.json') else {}
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hooks.splitlines() if l.split(' ', 1)[1].startswith('verif:')]
old = {}
try:
    old = json.load(open(f'{here}/MANIFEST.json'))
except FileNotFoundError:
    pass
commits = commits or old.get('hooks', {}).get('source_commits', [])
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(f'{here}/harness/src/bin/{pid.lower()}.rs'):
        checks.append({
            'property': pid,
            'quick_cmd': f'./check.sh {pid}',
            'thorough_cmd': f'./check.sh {pid} --thorough',
            'technique': 'explicit-state / stateless model checking of the real code: ' + notes.get(pid, {}).get('technique', 'exhaustive enumeration within bounds'),
            'level': 'model_checking',
            'level_note': notes.get(pid, {}).get('note', 'Exhaustive within the bounds in the evidence; trusts tokio, dashmap, crypto crates and the virtual clock/socket/scheduler of the harness.'),
        })
    else:
        na.append({'property': pid, 'reason': reasons.get(pid, 'No check has been built for it yet.')})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {
        'guard': 'cfg(verif)',
        'enable': 'rustc --cfg verif (set by harness/.cargo/config.toml for the harness builds only)',
        'source_commits': commits,
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. Every check is one binary of /verif/harness.',
}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
