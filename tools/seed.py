#!/usr/bin/env python3
"""Development aid: write and confirm planted bugs.

seed.py NAME...      (re)build /verif/seeded/NAME from tools/seeds.py and confirm it
seed.py --check      run the property's check against every kept bug
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))


def sh(cmd, cwd, timeout=400, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)


def copy():
    d = tempfile.mkdtemp(prefix='owcseed', dir='/tmp')
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    return d


def tests_ok(repo):
    """The stable tests, run like /opt/vp/test.sh does, on this copy."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    s = open('/opt/vp/test.sh').read().replace('/repo --exclude', repo + ' --exclude')
    t = os.path.join(os.path.dirname(repo), 't.sh')
    open(t, 'w').write(s)
    out = os.path.join(os.path.dirname(repo), 'out.json')
    sh(f"bash {t} {out}", repo)
    o = json.load(open(out))
    got = set(o['passed'])
    return sorted(want - got)


def build(name):
    import seeds
    s = seeds.SEEDS[name]
    d = copy()
    repo = d + '/repo'
    try:
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if old not in t:
                return name, f"no match in {f}: {old[:50]!r}"
            t = t.replace(old, new, 1) if isinstance(new, str) else new(t, old)
            open(p, 'w').write(t)
        diff = sh('git diff', repo).stdout
        out = os.path.join(V, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        if 'demo_lib' in s['demo']:
            shutil.copy(V + '/tools/demo_lib.py', out)
        if 'demo_fit' in s['demo']:
            shutil.copy(V + '/tools/demo_fit.py', out)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd at the repository root\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                                          'MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(out + '/meta.json', 'w'), indent=1)
        bad = sh(f"bash {out}/demo.sh", repo)
        lost = tests_ok(repo)
        sh('git checkout -q -- .', repo)
        good = sh(f"bash {out}/demo.sh", repo)
        msg = []
        if good.returncode:
            msg.append('demo fails on the unchanged tree: ' + (good.stdout + good.stderr)[-600:])
        if not bad.returncode:
            msg.append('demo passes with the patch')
        elif 'DEMO' not in bad.stdout + bad.stderr and 'Error' in bad.stderr:
            msg.append('(demo ended with) ' + bad.stderr[-300:])
        if lost:
            msg.append('tests lost: ' + str(lost)[:300])
        return name, '; '.join(msg) or 'ok'
    finally:
        shutil.rmtree(d)


def against(name):
    d = copy()
    ev = tempfile.mkdtemp(prefix='muv', dir='/tmp')
    try:
        meta = json.load(open(f"{V}/seeded/{name}/meta.json"))
        r = sh(f"git apply {V}/seeded/{name}/patch.diff", d + '/repo')
        if r.returncode:
            return name, 'does not apply'
        os.symlink(V + '/owcstatic', ev + '/owcstatic')
        os.symlink(V + '/known_findings.txt', ev + '/known_findings.txt')
        shutil.copy(V + '/check.py', ev)
        c = meta['property']
        out = []
        for p in sorted(f[:-3].upper() for f in os.listdir(V + '/owcstatic/checks') if f[0] == 'c' and f.endswith('.py')):
            if p != c and '--all' not in sys.argv:
                continue
            r = subprocess.run([sys.executable, ev + '/check.py', p], capture_output=True, text=True,
                               env=dict(os.environ, OWC_REPO=d + '/repo', OWC_VERIF=ev))
            if p == c or r.returncode:
                out.append(f"{p}:{r.returncode}")
        return name, (c + ' -> ' + ' '.join(out)) + ('' if f"{c}:1" in out else '   MISSED')
    finally:
        shutil.rmtree(d)
        shutil.rmtree(ev)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a[0] != '-']
    fn = against if '--check' in sys.argv else build
    if fn is against and not args:
        args = sorted(os.listdir(V + '/seeded'))
    if fn is build and not args:
        import seeds
        args = [s for s in seeds.SEEDS if not os.path.exists(f"{V}/seeded/{s}/meta.json")]
    with cf.ThreadPoolExecutor(6) as ex:
        for n, m in ex.map(fn, args):
            print(n, m, flush=True)
