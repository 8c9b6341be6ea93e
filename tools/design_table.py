#!/usr/bin/env python3
"""Development aid: which checks catch which planted bugs, as a table (needs a scratch copy of /repo per bug)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import mut
ids = [p['property'] for p in json.load(open(V + '/MANIFEST.json'))['checks']]


def one(name):
    d = tempfile.mkdtemp(prefix='owctab', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        if subprocess.run(['git', 'apply', V + f'/seeded/{name}/patch.diff'], cwd=d + '/r').returncode:
            return name, ['(does not apply)']
        res = mut.run(d + '/r', ids)
        return name, [i for i in ids if res[i][0] == 1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = sorted(os.listdir(V + '/seeded'))
with cf.ThreadPoolExecutor(8) as ex:
    for name, out in ex.map(one, names):
        m = json.load(open(f'{V}/seeded/{name}/meta.json'))
        print(f"| {name} | {m['property']} | {', '.join(out) or 'none'} | {m['needs']} |", flush=True)
