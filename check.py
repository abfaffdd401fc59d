"""
check.py <property> [--replay FILE [--json | --log]]

VERIF_SEED and VERIF_TIER choose what is explored.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def _boot():
    # only the bare minimum before this
    if os.environ.get('VERIF_BOOTED') != '1':
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = env.get('VERIF_HASHSEED', '0')
        env['VERIF_BOOTED'] = '1'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        py = '/opt/venv/bin/python'
        os.execve(py, [py, '-W', 'ignore'] + sys.argv, env)


_boot()

import json  # noqa: E402

try:
    from sim import runner  # noqa: E402
except BaseException:
    import traceback
    traceback.print_exc()
    print('HARNESS: the code under test can not be loaded')
    sys.exit(2)


def selftest():
    """One simulated run, twice"""
    scratch = os.path.join(runner.SCRATCH_ROOT, 'verif-sim-%d' % os.getpid(), 'fs')
    try:
        mod = runner.load('F01')
        plan = runner.plan_for(mod, 1, 0, 'quick')
        one, two = [runner.judged_run(mod, plan, scratch) for _ in (0, 1)]
    finally:
        runner.remove(os.path.dirname(scratch))
    if one.get('harness') or one.get('log') != two.get('log'):
        print('HARNESS: %s' % one.get('harness'))
        return 2
    print('simulator works')
    return 0


def main():
    if sys.argv[1] == '--selftest':
        return selftest()
    prop = sys.argv[1].upper()
    if '--replay' in sys.argv:
        path = sys.argv[sys.argv.index('--replay') + 1]
        if '--log' in sys.argv:
            with open(path) as fp:
                rec = json.load(fp)
            rec['plan']['_log'] = True
            scratch = os.path.join(runner.SCRATCH_ROOT, 'verif-sim-%d' % os.getpid(), 'fs')
            res = runner.judged_run(runner.load(prop), rec['plan'], scratch)
            runner.remove(os.path.dirname(scratch))
            print('\n'.join(res.get('log_lines') or []))
            print(res.get('viol'), res.get('harness'))
            return 0
        rec, res = runner.replay(prop, path)
        viol = res.get('viol')
        if '--json' in sys.argv:
            print(json.dumps({'class': viol and viol['cls'], 'log': res.get('log'),
                              'harness': res.get('harness')}))
            return 0
        if res.get('harness'):
            print('HARNESS: %s' % res['harness'])
            return 2
        if viol:
            same = viol['cls'] == rec['class'] and res.get('log') == rec['log']
            print('%s: %s' % (viol['cls'], viol['msg']))
            print('event log %s' % ('identical' if same else 'DIFFERS from the recorded one'))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('%s: no violation' % prop)
        return 0
    return runner.main(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    sys.exit(main())
