#!/usr/bin/env python3
"""Development tool (no check uses it): runs the quick check of every planted bug's property against a scratch copy of /repo with the bug.

  python3 tools/seeded.py [--budget SECONDS] [id ...]
"""
import json
import os
import subprocess
import sys
import tempfile

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
budget, ids = '40', []
args = sys.argv[1:]
while args:
    a = args.pop(0)
    if a == '--budget':
        budget = args.pop(0)
    else:
        ids.append(a)
ids = ids or sorted(os.listdir(os.path.join(TOP, 'seeded')))
for i in ids:
    d = os.path.join(TOP, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    with tempfile.TemporaryDirectory(prefix='seeded-') as tmp:
        w = os.path.join(tmp, 'wt')
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        subprocess.run(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')], check=True)
        p = subprocess.run([sys.executable, os.path.join(TOP, 'check.py'), prop, 'quick', '--budget', budget], env=dict(os.environ, VERIF_REPO=w),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        first = p.stdout.splitlines()[0] if p.stdout else ''
        print('{:24} {} {} {}'.format(i, prop, 'CAUGHT' if p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout else 'MISSED rc={}'.format(p.returncode), first), flush=True)
