#!/usr/bin/env python3
"""applies seeded bugs to /repo one at a time, runs the property's check (seed
1, quick) and notes in tools/catches.json which parts caught it.
Not part of any check.  usage: try_seeded.py [id ...]"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'catches.json')


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    assert not sh('git -C /repo status --porcelain -uno').stdout
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'DOES NOT APPLY')
            continue
        try:
            c = sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick ./run_check.sh %s'
                   % (V, meta['property']))
        finally:
            sh('git -C /repo checkout -- .')
        parts = [l.split('-', 1)[1].rsplit('.', 1)[0]
                 for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, c.returncode, parts, flush=True)
        try:
            catches = json.load(open(OUT))
        except (OSError, ValueError):
            catches = {}
        catches[i] = parts if c.returncode == 1 else []
        catches = {k: v for k, v in catches.items()
                   if os.path.isdir(os.path.join(V, 'seeded', k))}
        with open(OUT, 'w') as f:
            json.dump(catches, f, indent=1, sort_keys=True)


main()
