#!/usr/bin/env python3
"""Makes a planted bug from a description file and confirms it in a scratch copy.

usage: plant.py DIR...   each DIR holds spec.py defining
  PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], and demo.rs (an integration test)
Writes /verif/seeded/<name>/ when everything is as it should be."""
import json, os, shutil, subprocess, sys
SCRATCH = '/tmp/plant/repo'
DEMO = '''#!/bin/bash
# Runs demo.rs as an integration test in a scratch copy.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/repo" "$tmp/repo/tests" "$tmp/scratch"
cp -a "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/src" "$tmp/repo/"
cp "$here/demo.rs" "$tmp/repo/tests/demo.rs"
EXTRA
cd "$tmp/repo" || exit 2
TMPDIR=$tmp/scratch CARGO_TARGET_DIR=${DEMO_TARGET:-$repo/target} timeout 280 cargo test --offline --test demo -- --test-threads 1
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def fresh():
    if not os.path.exists(SCRATCH):
        os.makedirs('/tmp/plant', exist_ok=True)
        sh(f'git clone -q /repo {SCRATCH} && cp /repo/Cargo.lock {SCRATCH}/ && cp -a /repo/target {SCRATCH}/target')
    sh(f'cd {SCRATCH} && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e target; cp -n /repo/Cargo.lock {SCRATCH}/')
base = json.load(open('/opt/vp/BASELINE.json'))
stable = base.get('stable') or base.get('passed') or base.get('tests') or base
fresh()
for d in sys.argv[1:]:
    name = os.path.basename(d.rstrip('/'))
    spec = {}
    exec(open(f'{d}/spec.py').read(), spec)
    sh(f'cd {SCRATCH} && git checkout -q -- . ')
    out = f'/tmp/plant/out/{name}'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    shutil.copy(f'{d}/demo.rs', out)
    for extra in spec.get('FILES', []):
        if os.path.isdir(f'{d}/{extra}'): shutil.copytree(f'{d}/{extra}', f'{out}/{extra}')
        else: shutil.copy(f'{d}/{extra}', out)
    open(f'{out}/demo.sh', 'w').write(DEMO.replace('EXTRA', spec.get('EXTRA', ':')))
    os.chmod(f'{out}/demo.sh', 0o755)
    clean = sh(f'cd {SCRATCH} && touch src/lib.rs && {out}/demo.sh')
    if clean.returncode != 0: print(name, 'DEMO FAILS ON CLEAN', clean.stdout[-2500:]); continue
    ok = True
    for f, old, new in spec['EDITS']:
        p = f'{SCRATCH}/{f}'; s = open(p).read()
        if s.count(old) != 1: print(name, 'EDIT matches', s.count(old), 'times:', f, old); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    open(f'{out}/patch.diff', 'w').write(sh(f'cd {SCRATCH} && git diff').stdout)
    broken = sh(f'cd {SCRATCH} && {out}/demo.sh')
    if broken.returncode == 0 or 'error: could not compile' in broken.stdout: print(name, 'DEMO PASSES OR DOES NOT COMPILE WITH PATCH', broken.stdout[-2500:]); continue
    # Whether original lines change.
    orig = 0
    for f in {e[0] for e in spec['EDITS']}:
        blame = sh(f'cd {SCRATCH} && git blame -s HEAD -- {f}').stdout.splitlines()
        removed = set(); n = 0
        for line in sh(f'cd {SCRATCH} && git diff -U0 -- {f}').stdout.splitlines():
            if line.startswith('@@'): n = int(line.split()[1].split(',')[0][1:])
            elif line.startswith('-') and not line.startswith('---'): removed.add(n); n += 1
        orig += sum(1 for r in removed if blame[r - 1].startswith('^'))
    tests = sh(f'. /opt/vp/env.sh; cd {SCRATCH} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    results = [l for l in tests.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
    passed = sum(1 for l in tests.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok'))
    if results or passed < 119: print(name, 'TESTS', passed, results[:5], tests.stdout[-1500:] if passed == 0 else ''); continue
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(f'{out}/meta.json', 'w'), indent=1)
    dest = f'/verif/seeded/{name}'
    shutil.rmtree(dest, ignore_errors=True); shutil.copytree(out, dest)
    print(name, 'KEPT; original lines changed:', orig, flush=True)
sh(f'cd {SCRATCH} && git checkout -q -- .')
