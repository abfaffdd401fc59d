"""
tools/bug.py ID [ID ...] [--nocheck] [--seeds 1,2]

Is what there is in seeded/ID what it should be: applies, tests pass, demo passes without and fails with it. And is it
found?
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/bugwt-%d' % os.getpid()
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', **env)
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tree():
    if os.path.isdir(WT):
        shutil.rmtree(WT)
    os.makedirs(WT)
    rc, out = sh('git -C /repo archive HEAD | tar x -C %s' % WT, '/')
    assert rc == 0, out


def one(name, check, seeds):
    d = os.path.join(HERE, 'seeded', name)
    with open(os.path.join(d, 'meta.json')) as fp:
        meta = json.load(fp)
    tree()
    ok = True
    pp = os.path.join(WT, 'src')
    demo = 'bash %s' % os.path.join(d, 'demo.sh')
    rc, out = sh(demo, WT, PYTHONPATH=pp)
    if rc:
        ok = False
        print(name, 'DEMO FAILS WITHOUT', out[-800:])
    rc, out = sh('git apply --unsafe-paths --directory=%s %s' % (WT, os.path.join(d, 'patch.diff')), WT)
    if rc:
        rc, out = sh('patch -p1 --fuzz=0 < %s' % os.path.join(d, 'patch.diff'), WT)
    if rc:
        print(name, 'DOES NOT APPLY', out)
        return False
    rc, out = sh(PY + ' -m pytest tests -q -p no:cacheprovider 2>&1 | tail -5', WT, PYTHONPATH=pp)
    if 'failed' in out or '246 passed' not in out:
        ok = False
        print(name, 'TESTS', out[-600:])
    rc, out = sh(demo, WT, PYTHONPATH=pp)
    if rc == 0:
        ok = False
        print(name, 'DEMO PASSES WITH', out[-800:])
    else:
        print(name, 'demo:', out.strip().splitlines()[-1:] or '')
    if check:
        for s in seeds:
            rc, out = sh('python3 check.py %s' % meta['property'], HERE, VERIF_REPO=WT, VERIF_SEED=s,
                         VERIF_TIER='quick')
            lines = out.strip().splitlines()
            print(name, meta['property'], 'seed', s, {0: 'MISSED', 1: 'caught', 2: 'NO ANSWER'}.get(rc, rc),
                  lines[-1], '|', [x for x in lines if x.startswith('seed') and 'index' in x][:1])
    print(name, 'ok' if ok else 'NOT OK')
    return ok


def main():
    args = sys.argv[1:]
    check = '--nocheck' not in args
    seeds = ['1']
    if '--seeds' in args:
        i = args.index('--seeds')
        seeds = args[i + 1].split(',')
        del args[i:i + 2]
    names = [a for a in args if not a.startswith('--')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    try:
        for n in names:
            one(n, check, seeds)
            sys.stdout.flush()
    finally:
        shutil.rmtree(WT, ignore_errors=True)


main()
