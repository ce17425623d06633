#!/usr/bin/env python3
"""Lists planted bugs whose patch removes lines that later commits of /repo
added (development tool): those would not count."""
import glob
import re
import subprocess

BASE = '62549fc'
new = {}
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    name = p.split('/')[-2]
    f, n, bad, removed = None, 0, [], 0
    for line in open(p):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            if f not in new:
                out = subprocess.run(['git', '-C', '/repo', 'blame', '-s',
                                      BASE + '..HEAD', '--', f],
                                     capture_output=True, text=True).stdout
                new[f] = {i for i, x in enumerate(out.splitlines(), 1)
                          if not x.startswith('^')}
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            removed += 1
            if n in new[f]:
                bad.append(n)
            n += 1
        elif line.startswith(' '):
            n += 1
    if bad:
        print(name, 'removes added lines', bad, 'of', removed, 'removed')
