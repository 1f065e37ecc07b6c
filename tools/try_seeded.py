#!/usr/bin/env python3
"""Runs checks against planted bugs: try_seeded.py [-a] [-t] NAME...   (-a: all checks, -t: thorough)"""
import json, subprocess, sys, time
args = sys.argv[1:]
every = '-a' in args; thorough = '-t' in args
names = [a for a in args if not a.startswith('-')]
man = json.load(open('/verif/MANIFEST.json'))
ids = [c['property'] for c in man['checks']]
for name in names:
    d = f'/verif/seeded/{name}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', f'{d}/patch.diff']).returncode: print(name, 'DOES NOT APPLY'); continue
    try:
        caught = []
        for pid in (ids if every else [prop]):
            t = time.time()
            p = subprocess.run(f'cd /verif && {"VERIF_TIER=thorough " if thorough else ""}timeout 900 ./check.sh {pid}', shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l for l in p.stdout.splitlines() if l.startswith('  [')]
            if p.returncode == 1: caught.append(pid)
            if pid == prop: print(f'{name}: {pid} {"CAUGHT" if p.returncode == 1 else "MISSED" if p.returncode == 0 else f"BROKEN {p.returncode} {p.stdout[-500:]}"} in {time.time() - t:.0f} s', (lines[0][:300] if lines else ''), flush=True)
        if every: print(f'{name}: caught by {caught}', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
