#!/usr/bin/env python3
"""Writes and validates planted bugs. Usage: mkseed.py DEFS.py [ID...]

DEFS.py defines SEEDS: dicts with id, property, file, edits [(old, new)], pkg,
demo (the body of a Go test file of that package), needs, what_it_breaks. Each is kept as
/verif/seeded/<id>/ only if it applies, changes lines of the base commit only,
builds, passes the existing tests, and its demo tells it from the unchanged tree."""
import json, os, runpy, shutil, subprocess, sys
SEEDED = '/verif/seeded'
WT = '/tmp/seedwt-%d' % os.getpid()
BASE = '1fae046'
DEMO = '''#!/bin/bash
# Run in /repo: fails with the change, passes without it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
echo '{"Replace":{"'"$PWD"'/%(pkg)s/zz_demo_test.go":"'"$D"'/demo_test.go.txt"}}' > "$T/overlay.json"
exec timeout 280 go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 270s -run '^TestDemo' %(flags)s ./%(pkg)s
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def write(s):
    d = f"{SEEDED}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f'rm -rf {WT}; git -C /repo worktree prune; git clone -q --shared /repo {WT}')
    files = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
    for f, eds in files.items():
        p = f'{WT}/{f}'
        t = open(p).read()
        for o, n in eds:
            if t.count(o) != 1:
                return f'{f}: old text occurs {t.count(o)} times: {o[:60]!r}'
            t = t.replace(o, n)
        open(p, 'w').write(t)
    diff = sh('git diff', WT).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo_test.go.txt', 'w').write(s['demo'])
    open(f'{d}/demo.sh', 'w').write(DEMO % {'pkg': s['pkg'], 'flags': s.get('flags', '')})
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    # changed lines belong to the base commit
    n = 0
    for f in files:
        bl = sh(f'git blame -s --abbrev=7 HEAD -- {f}', WT).stdout.splitlines()
        import difflib
        a = sh(f'git show HEAD:{f}', WT).stdout.splitlines(); b = open(f'{WT}/{f}').read().splitlines()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
            if tag in ('replace', 'delete'):
                for i in range(i1, i2):
                    if not bl[i].lstrip('^').startswith(BASE[:6]):
                        return f'{f}:{i+1} is not a line of the base: {a[i]}'
                    n += 1
    if not n:
        return 'no line of the base is changed'
    r = sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | tail -40', WT)
    if 'FAIL' in r.stdout or r.returncode or 'ok' not in r.stdout:
        return 'build or tests fail: ' + r.stdout[-600:] + r.stderr[-600:]
    r1 = sh(f'bash {d}/demo.sh', WT)
    r0 = sh(f'git checkout -q -- . && bash {d}/demo.sh', WT)
    if r0.returncode != 0:
        return 'demo fails on the unchanged tree: ' + r0.stdout[-800:] + r0.stderr[-500:]
    if r1.returncode == 0:
        return 'demo passes with the patch'
    if 'build failed' in r1.stdout:
        return 'demo does not build: ' + r1.stdout[-500:]
    return None

if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    bad = 0
    for s in seeds:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        e = write(s)
        print(s['id'], 'OK' if e is None else 'REJECTED: ' + e, flush=True)
        if e:
            bad = 1
            shutil.rmtree(f"{SEEDED}/{s['id']}", ignore_errors=True)
    shutil.rmtree(WT, ignore_errors=True)
    sys.exit(bad)
