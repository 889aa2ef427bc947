#!/usr/bin/env python3
"""Runs checks on edits that keep the behaviour: quiet.py [-c C01,C02] DEFS.py [NAME...].

DEFS.py defines REFACTORS: {name: {file: [(old, new)]}}. All the named ones (default:
all) are applied together to a copy of /repo, which is mounted over /repo in a mount
namespace of its own; the existing tests must pass, and every check must stay quiet."""
import argparse, runpy, shutil, subprocess, sys, tempfile, time
ap = argparse.ArgumentParser()
ap.add_argument('-c', default=','.join('C%02d' % i for i in range(1, 28)))
ap.add_argument('-n', action='store_true', help='only run the existing tests')
ap.add_argument('defs')
ap.add_argument('names', nargs='*')
a = ap.parse_args()
R = runpy.run_path(a.defs)['REFACTORS']
tmp = tempfile.mkdtemp(prefix='quiet-')
bad = 0
try:
    shutil.copytree('/repo', tmp + '/repo', symlinks=True)
    shutil.copytree('/verif', tmp + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
    subprocess.run(['git', '-C', tmp + '/repo', 'checkout', '-q', '--', '.'], check=True)
    for n in a.names or R:
        for f, eds in R[n].items():
            p = f'{tmp}/repo/{f}'
            t = open(p).read()
            for o, w in eds:
                if t.count(o) != 1:
                    sys.exit(f'{n}: {f}: old text occurs {t.count(o)} times: {o[:80]!r}')
                t = t.replace(o, w)
            open(p, 'w').write(t)
    r = subprocess.run('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | tail -40', shell=True, cwd=tmp + '/repo', capture_output=True, text=True)
    if 'FAIL' in r.stdout or r.returncode or 'ok' not in r.stdout:
        sys.exit('build or tests fail:\n' + r.stdout[-1500:] + r.stderr[-1500:])
    print('tests pass', flush=True)
    for c in [] if a.n else a.c.split(','):
        t = time.time()
        r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {tmp}/repo /repo && mount --bind {tmp}/verif /verif && cd /verif && exec ./check {c} --tier quick'],
                           capture_output=True, text=True)
        quiet = r.returncode == 0 and 'VIOLATION' not in r.stdout
        bad += not quiet
        print(c, 'quiet' if quiet else f'NOT QUIET rc={r.returncode}\n{r.stdout[:2500]}{r.stderr[-1500:]}', f'{time.time()-t:.0f}s', flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(bad != 0)
