"""
tools/determinism.py [-n RUNS] [CHECK...]
Every run twice, in another order, from processes with another hash seed: the event logs have to be the same.
"""
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def child(name, seed, n, order):
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    from sim import runner
    mod = runner.load(name)
    scratch = '/dev/shm/verif-sim-%d/fs' % os.getpid()
    res = {}
    idx = list(range(n))
    if order:
        idx.reverse()
    for i in idx:
        plan = runner.plan_for(mod, seed, i, 'quick')
        r = runner.judged_run(mod, plan, scratch)
        res[i] = [hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12], r.get('log'), r.get('sched'),
                  r.get('steps'), r.get('harness'), (r.get('viol') or {}).get('msg')]
    runner.remove(os.path.dirname(scratch))
    print(json.dumps(res))


def main():
    args = sys.argv[1:]
    n = 200
    if args[:1] == ['-n']:
        n, args = int(args[1]), args[2:]
    names = args or [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(
        os.path.join(HERE, 'MANIFEST.json')))['checks']]
    bad = 0
    for name in names:
        ps = []
        for order, hs in ((0, '0'), (1, '4711')):
            env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_BOOTED='1', PYTHONDONTWRITEBYTECODE='1')
            ps.append(subprocess.Popen([PY, '-W', 'ignore', os.path.abspath(__file__), '--child', name, '7', str(n), str(order)],
                                       env=env, stdout=subprocess.PIPE))
        a, b = [json.loads(p.communicate()[0].splitlines()[-1]) for p in ps]
        diff = [i for i in a if a[i] != b[i]]
        print('%s: %d runs twice, %d differ %s' % (name, n, len(diff), diff[:5]))
        for i in diff[:1]:
            print(a[i], b[i])
        bad += len(diff)
    sys.exit(1 if bad else 0)


if sys.argv[1:2] == ['--child']:
    child(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]))
else:
    main()
