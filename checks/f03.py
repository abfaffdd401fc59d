"""
F03: concurrent use by several processes is linearizable, raises no spurious errors and makes progress.
"""
import os

from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Recorder
from checks.fcommon import Violation
from checks.fcommon import check_history
from checks.fcommon import conf
from checks.fcommon import gen_conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import perform
from checks.fcommon import shorten_values
from checks.fcommon import val

PROPERTY = 'F03'
RUNS = {'quick': 40000, 'thorough': 600000}
RULE = ('2-4 simulated processes, each with a handle of its own on one directory, 1-8 operations each on 1-3 keys, '
        'pre-empted at 1-14 randomly chosen intercepted calls (system calls, locks, sleeps) or at every one with some '
        'probability, half of the runs with '
        'stalls and clock steps; non-trivial: at least one switch inside an operation; distinct by schedule and '
        'results (event log)')
REAL = ['oidcmsg.storage (abfile, converter, init, utils)', 'filelock (on flock of the real kernel)', 'CPython io']
STUBS = ['task scheduling, clock, sleep, time stamps, inode numbers, directory order, uuid/urandom (simulated)',
         'processes: threads with handles of their own that run one at a time']
ASSUMPTIONS = ['a handle is used by one task only',
               'file time stamps have nanosecond resolution when entries are removed (F02 has coarse ones)',
               'iteration over items/keys is consumed at once',
               'processes share one kernel: no network file system']
PROBES = ('lock-contention', 'stall', 'clock-step', 'foreign-write-mid-op', 'vanished-mid-op')
SIG = ('set', 'get', 'getitem', 'in', 'del', 'items', 'keys', 'len', 'clear', 'update', 'iter', 'call', 'reopen')


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': 1, 'tick_ns': 1000, 'list_seed': rng.randrange(1 << 30),
            'id_seed': rng.randrange(1 << 30)}
    gen_conf(rng, plan)
    nk = rng.choice([1, 1, 2, 2, 3])
    keys = rng.sample(ODD_KEYS, nk) if rng.random() < 0.2 else PLAIN_KEYS[:nk]
    plan['keys'] = keys
    nt = rng.choice([2, 2, 3, 3, 4])
    w = {'set': 5, 'get': 2, 'getitem': 3, 'in': 1, 'del': 3, 'update': 0.7, 'clear': 0.5, 'len': 1,
         'keys': 1, 'items': 1.5, 'iter': 0.3, 'call': 0.3, 'reopen': 0.7}
    for o in w:
        w[o] *= rng.choice([0, 0.5, 1, 1, 3])
    w['set'] = max(w['set'], 1.0)
    if rng.random() < 0.25:
        # coarse time stamps. An entry that was removed can not be told from a new one then
        plan['mtime_gran_ns'] = rng.choice([10 ** 6, 10 ** 9])
        w['del'] = w['clear'] = 0
    names, weights = list(w), list(w.values())
    u = 0
    tasks = {}
    for t in range(nt):
        ops = []
        for _ in range(rng.randrange(1, 9 if nt < 4 else 6)):
            o = rng.choices(names, weights)[0]
            op = {'u': u, 'o': o}
            if o in ('set', 'get', 'getitem', 'in', 'del'):
                op['k'] = rng.choice(keys)
            if o == 'set':
                op['v'] = 'v%04d' % u if rng.random() < 0.5 else gen_value(rng, u, plan['value_conv'], alike=0.15)
            elif o == 'update':
                op['kv'] = [[k, 'u%03d%d' % (u, i)] for i, k in enumerate(rng.sample(keys, rng.randrange(1, nk + 1)))]
            ops.append(op)
            u += 1
        tasks['t%d' % t] = ops
    plan['tasks'] = tasks
    plan['initial'] = [[k, 'i%d' % i] for i, k in enumerate(keys) if rng.random() < 0.6]
    where = [(t, op['u']) for t in tasks for op in tasks[t]] + [(t, -1) for t in tasks]
    pre = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6, 9, 14])):
        t, op = rng.choice(where)
        others = [x for x in tasks if x != t]
        pre.append([t, op, rng.choice([rng.randrange(6), rng.randrange(14), rng.randrange(40)]), rng.choice(others)])
    plan['preempt'] = pre
    if rng.random() < 0.65:
        plan['preempt'] = []
        plan['walk'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.02, 0.05, 0.1, 0.2, 0.4])}
    plan['first'] = rng.choice(list(tasks))
    faults = []
    if rng.random() < 0.5:
        for i in range(rng.randrange(1, 4)):
            t, op = rng.choice(where)
            if rng.random() < 0.5:
                faults.append({'task': t, 'op': op, 'idx': rng.randrange(20), 'do': 'stall',
                               'ns': rng.choice([10 ** 6, 60 * 10 ** 6, 2 * 10 ** 9, 10 ** 10])})
            else:
                # never the same residue, a time stamp can't come back
                faults.append({'task': t, 'op': op, 'idx': rng.randrange(20), 'do': 'clock',
                               'ns': rng.choice([-1, 1]) * rng.choice([10 ** 3, 10 ** 6, 10 ** 9, 10 ** 13]) +
                               (1 << i)})
    plan['faults'] = faults
    return plan


def task_body(env, plan, rec, name, ops, errors, body=perform, catch=()):
    def go(task):
        sim = env.sim
        task.begin(-1)
        store = open_store(conf(plan))
        task.end()
        for op in ops:
            task.begin(op['u'])
            if op['o'] == 'reopen':
                store = open_store(conf(plan))
            else:
                body(op, store, rec, plan['keys'])
            task.end()
    return go


def wrap(env, name, fn, errors):
    """An exception that gets out of the storage"""
    import traceback
    from sim.core import HarnessError
    from sim.core import SimCrash
    from sim.core import SimStuck

    def go(task):
        try:
            fn(task)
        except (SimCrash, SimStuck, HarnessError, Violation):
            raise
        except BaseException as err:
            errors.append((name, task.op, type(err).__name__, '%s' % err,
                           traceback.format_exc()[-1200:]))
    return go


def final_reads(env, plan, rec):
    """A new process looks at everything"""
    store = open_store(conf(plan))
    for i, o in enumerate(('items', 'keys', 'len')):
        perform({'u': 10000 + i, 'o': o}, store, rec, plan['keys'])
    for k in plan['keys']:
        perform({'u': 10100, 'o': 'getitem', 'k': k}, store, rec, plan['keys'])


def run(env, plan):
    sim = env.start()
    store = open_store(conf(plan))
    initial = {}
    for k, v in plan['initial']:
        store[k] = v
        initial[k] = v
    rec = Recorder(sim, plan['keys'])
    errors = []
    for name, ops in plan['tasks'].items():
        sim.spawn(name, wrap(env, name, task_body(env, plan, rec, name, ops, errors), errors))
    sim.run()
    if sim.stuck:
        raise Violation('no-progress', 'stuck (%s) after %d steps' % (sim.stuck, sim.steps))
    if errors:
        n, o, typ, msg, tb = errors[0]
        raise Violation('spurious-error-%s' % typ, '%s in operation %s of %s: %s' % (typ, o, n, msg), tb=tb)
    sim.cur = None
    final_reads(env, plan, rec)
    probe_overlaps(sim, rec)
    hard = check_history(rec, initial)
    if hard:
        sim.probe('history-too-hard', hard)
    leftovers(env, plan)
    return {'nontrivial': sim.switches > len(plan['tasks'])}


def probe_overlaps(sim, rec):
    writes = [o for o in rec.ops if o[2] == 'w' and o[1]]
    for o in rec.ops:
        if o[1] is None:
            continue
        for w in writes:
            if w is not o and w[3] == o[3] and o[0] < w[0] and w[1] < o[1]:
                sim.probe('foreign-write-mid-op')
                if w[4] is not None and val(w[4]) == ('absent',):
                    sim.probe('vanished-mid-op')
                break


def leftovers(env, plan):
    """No temporary files shall be left when everyone is done and no one died"""
    from checks.fcommon import real_listing
    names = [n for n in real_listing(env) if not n.endswith('.lock')]
    store = open_store(conf(plan))
    known = sorted(store.keys())
    if len(names) != len(known):
        raise Violation('leftovers', 'files %r for entries %r' % (names, known))


simplify = shorten_values
