#!/usr/bin/env python3
"""Development aid: run checks on edited scratch copies of /repo.

mut.py bugs [CXX ...]    every listed bug must make its check exit 1
mut.py same [CXX ...]    every listed behaviour-preserving edit must leave all checks at 0
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants  # noqa

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def checks():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'owcstatic/checks')) if f[0] == 'c' and f.endswith('.py'))


def prepare(edits):
    d = tempfile.mkdtemp(prefix='mut')
    shutil.copytree('/repo/pyowc', d + '/pyowc', ignore=shutil.ignore_patterns('tests', '__pycache__'))
    for f, o, n in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(o) < 1:
            shutil.rmtree(d)
            return None, f"no match in {f}: {o[:60]!r}"
        s = s.replace(o, n) if isinstance(n, str) else n(s, o)
        open(p, 'w').write(s)
    for f in {e[0] for e in edits}:
        try:
            compile(open(os.path.join(d, f)).read(), f, 'exec')
        except SyntaxError as e:
            shutil.rmtree(d)
            return None, f"syntax {e}"
    return d, None


def run(d, props):
    out = {}
    ev = tempfile.mkdtemp(prefix='muv')
    # private evidence directory: link the engine, write evidence apart
    os.symlink(V + '/owcstatic', ev + '/owcstatic')
    os.symlink(V + '/known_findings.txt', ev + '/known_findings.txt')
    shutil.copy(V + '/check.py', ev)
    for p in props:
        r = subprocess.run([sys.executable, ev + '/check.py', p], capture_output=True, text=True,
                           env=dict(os.environ, OWC_REPO=d, OWC_VERIF=ev))
        out[p] = (r.returncode, r.stdout + r.stderr[-1500:])
    shutil.rmtree(ev)
    shutil.rmtree(d)
    return out


def one(job):
    kind, name, prop, edits = job
    d, err = prepare(edits)
    if d is None:
        return job, {}, err
    return job, run(d, [prop] if kind == 'bugs' else (ONLY or checks())), None


ONLY = [a for a in sys.argv[2:] if a.startswith('C')]


def main():
    kind = sys.argv[1]
    pat = [a for a in sys.argv[2:] if not a.startswith('C') and a != '-v']
    v = '-v' in sys.argv
    jobs = []
    if kind == 'bugs':
        for name, prop, edits in mutants.BUGS:
            if (not ONLY or prop in ONLY) and (not pat or any(x in name for x in pat)) and prop in checks():
                jobs.append((kind, name, prop, edits))
    else:
        for name, edits in mutants.SAME:
            if not pat or any(x in name for x in pat):
                jobs.append((kind, name, None, edits))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for (k, name, prop, _e), res, err in ex.map(one, jobs):
            if err:
                print('ERROR', name, err)
                bad += 1
                continue
            for p, (rc, o) in sorted(res.items()):
                want = 1 if k == 'bugs' else 0
                if rc != want:
                    bad += 1
                    print(f"{'MISSED' if k == 'bugs' else 'ALARM'} {p} {name} rc={rc}")
                    if k != 'bugs' or v or rc > 1:
                        print('   ', o[-900:].replace('\n', '\n    '))
                elif v and k == 'bugs':
                    print('caught', p, name, '::', next((l for l in o.splitlines() if l.startswith('  ')), '')[:230])
    print(f"{len(jobs)} edits, {bad} unexpected")


if __name__ == '__main__':
    main()
