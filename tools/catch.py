#!/usr/bin/env python3
"""Runs the check of each planted bug against it: catch.py [-c CHECK] [-t TIER] [ID...].

Works on copies of /repo and /verif that are mounted over the originals in a
mount namespace of their own, so neither is touched."""
import argparse, json, os, shutil, subprocess, tempfile, time
ap = argparse.ArgumentParser()
ap.add_argument('-c', help='run this check instead of that of the property')
ap.add_argument('-t', default='quick')
ap.add_argument('-v', action='store_true')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
D = '/verif/seeded'
tmp = tempfile.mkdtemp(prefix='catch-')
try:
    shutil.copytree('/repo', tmp + '/repo', symlinks=True)
    shutil.copytree('/verif', tmp + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
    subprocess.run(['git', '-C', tmp + '/repo', 'checkout', '-q', '--', '.'], check=True)
    for i in a.ids or sorted(os.listdir(D)):
        m = json.load(open(f'{D}/{i}/meta.json'))
        c = a.c or m['property']
        subprocess.run(['git', '-C', tmp + '/repo', 'apply', f'{D}/{i}/patch.diff'], check=True)
        t = time.time()
        r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {tmp}/repo /repo && mount --bind {tmp}/verif /verif && cd /verif && exec ./check {c} --tier {a.t}'],
                           capture_output=True, text=True)
        subprocess.run(['git', '-C', tmp + '/repo', 'checkout', '-q', '--', '.'], check=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, c, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', f'{time.time()-t:.0f}s', flush=True)
        if a.t == 'quick':
            f = '/verif/tools/catches.json'
            rec = json.load(open(f)) if os.path.exists(f) else {}
            rec[i] = (f'{c} catches it' if r.returncode == 1 and v else f'{c} misses it')
            json.dump(rec, open(f, 'w'), indent=0, sort_keys=True)
        if a.v:
            print(r.stdout[:1500])
        if r.returncode not in (0, 1):
            print(r.stderr[-800:])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
