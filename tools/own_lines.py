#!/usr/bin/env python3
"""which kept bugs change a line that a commit of ours added to /repo (they would not count)"""
import os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
for i in sorted(os.listdir(V + '/seeded')):
    out = []
    f = None
    ln = 0
    blame = {}
    orig = mine = 0
    for l in open(f'{V}/seeded/{i}/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            if f not in blame:
                b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
                blame[f] = [x.lstrip('^')[:39] == base[:39] for x in b]
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            if blame[f][ln - 1]:
                orig += 1
            else:
                mine += 1
            ln += 1
        elif l.startswith(' '):
            ln += 1
    if mine or not orig:
        print(i, 'original', orig, 'ours', mine)
