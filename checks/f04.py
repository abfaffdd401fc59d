"""
F04: a process that dies, or a machine that loses power, in the middle of an operation never leaves a damaged
entry, a stuck lock or a store that can't be used.
"""
from checks.f03 import final_reads
from checks.f03 import task_body
from checks.f03 import wrap
from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Recorder
from checks.fcommon import Violation
from checks.fcommon import canon
from checks.fcommon import check_history
from checks.fcommon import conf
from checks.fcommon import gen_conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import perform
from checks.fcommon import shorten_values
from sim.lin import ABSENT

PROPERTY = 'F04'
RUNS = {'quick': 30000, 'thorough': 500000}
RULE = ('1-3 simulated processes, 1-6 operations each on 1-3 keys; one or two processes are killed at a chosen call '
        'of a chosen operation (also in the middle of a write) and started again, or power is lost for all of them '
        'and the directory is rebuilt from what had been made durable (metadata in order up to a random cut; data '
        'not synced lost, half, zeroed or all there); then new processes read everything and write every key; '
        'non-trivial: a crash fired inside an operation; distinct by event log')
REAL = ['oidcmsg.storage (abfile, converter, init, utils)', 'filelock (on flock of the real kernel)', 'CPython io']
STUBS = ['task scheduling, clock, time stamps, inode numbers, directory order, uuid/urandom (simulated)',
         'processes: threads whose files are closed and stack discarded when killed; restarted as new threads',
         'power loss: model of an ordered-metadata journalling file system']
ASSUMPTIONS = ['file system: rename is atomic; metadata changes become durable in order; fsync makes the content '
               'of a file, and the file under the name it was created with, durable',
               'locks of a dead process are released by the kernel']
PROBES = ('crash-in-op', 'restarted', 'power-lost', 'crash-partial', 'tmp-left-behind')
simplify = shorten_values


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': 1, 'tick_ns': 1000, 'list_seed': rng.randrange(1 << 30),
            'id_seed': rng.randrange(1 << 30)}
    gen_conf(rng, plan)
    nk = rng.choice([1, 1, 2, 2, 3])
    keys = rng.sample(ODD_KEYS, nk) if rng.random() < 0.2 else PLAIN_KEYS[:nk]
    plan['keys'] = keys
    nt = rng.choice([1, 1, 2, 2, 3])
    w = {'set': 6, 'get': 1, 'getitem': 2, 'in': 0.5, 'del': 3, 'update': 1, 'clear': 0.7, 'len': 0.5,
         'keys': 0.5, 'items': 1, 'reopen': 0.5}
    names, weights = list(w), list(w.values())
    u = 0
    tasks = {}
    for t in range(nt):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            o = rng.choices(names, weights)[0]
            op = {'u': u, 'o': o}
            if o in ('set', 'get', 'getitem', 'in', 'del'):
                op['k'] = rng.choice(keys)
            if o == 'set':
                op['v'] = gen_value(rng, u, plan['value_conv'], rng.choice([0, 5, 300, 9000, 20000]))
            elif o == 'update':
                op['kv'] = [[k, 'u%03d%d%s' % (u, i, 'x' * rng.choice([0, 100]))]
                            for i, k in enumerate(rng.sample(keys, rng.randrange(1, nk + 1)))]
            ops.append(op)
            u += 1
        tasks['t%d' % t] = ops
    plan['tasks'] = tasks
    plan['initial'] = [[k, 'i%d%s' % (i, 'y' * rng.choice([0, 500]))] for i, k in enumerate(keys)
                       if rng.random() < 0.7]
    where = [(t, op['u']) for t in tasks for op in tasks[t]] + [(t, -1) for t in tasks]
    # those that change something, preferably
    hot = [(t, op['u']) for t in tasks for op in tasks[t] if op['o'] in ('set', 'del', 'update', 'clear')] or where
    faults = []
    power = rng.random() < 0.35
    if power:
        t, op = rng.choice(hot)
        faults.append({'task': t, 'op': op, 'idx': rng.randrange(24), 'do': 'powerloss'})
        plan['cut'] = rng.choice([0.0, 0.99999, rng.random(), rng.random()])
        plan['tail'] = rng.choice(['all', 'none', 'half', 'zero'])
        plan['power'] = True
    else:
        for _ in range(rng.choice([1, 1, 2])):
            t, op = rng.choice(hot if rng.random() < 0.85 else where)
            if rng.random() < 0.3:
                faults.append({'task': t, 'op': op, 'idx': rng.randrange(16), 'do': 'crash-partial',
                               'frac': rng.choice([0, 0.3, 0.5, 0.9, 1])})
            else:
                faults.append({'task': t, 'op': op, 'idx': rng.randrange(24), 'do': 'crash'})
    plan['faults'] = faults
    plan['preempt'] = []
    if nt > 1:
        if rng.random() < 0.6:
            plan['walk'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.02, 0.05, 0.1, 0.2])}
        else:
            for _ in range(rng.choice([1, 2, 3, 6])):
                t, op = rng.choice(where)
                plan['preempt'].append([t, op, rng.randrange(24), rng.choice([x for x in tasks if x != t])])
    return plan


def run(env, plan):
    sim = env.start()
    store = open_store(conf(plan))
    initial = {}
    for k, v in plan['initial']:
        store[k] = v
        initial[k] = v
    if plan.get('power'):
        env.fs.start_power_model()
    rec = Recorder(sim, plan['keys'])
    errors = []
    crashes = []

    def crashed(task):
        crashes.append(sim.seq)
        if task is not None and task.op >= 0:
            sim.probe('crash-in-op')
        # what the dead one was doing can't happen later than now
        for o in rec.ops:
            if o[1] is None and (task is None or o[5] == task.name):
                o[1] = sim.seq
                o[2] = {'w': 'W'}.get(o[2], 'x')

    call = rec.call

    def call_by(kind, key, arg=None):
        r = call(kind, key, arg)
        r.append(sim.cur.name if sim.cur else None)
        return r

    rec.call = call_by
    sim.on_crash.append(crashed)

    def after_restart(name):
        def go(task):
            sim.probe('restarted')
            task.begin(-1)
            s = open_store(conf(plan))
            task.end()
            for i, k in enumerate(plan['keys']):
                task.begin(20000 + i)
                perform({'u': 20000 + i, 'o': 'getitem', 'k': k}, s, rec, plan['keys'])
                task.end()
            for i, k in enumerate(plan['keys'][:1]):
                task.begin(21000 + i)
                perform({'u': 0, 'o': 'set', 'k': k, 'v': 'r%s' % name}, s, rec, plan['keys'])
                task.end()
        return wrap(env, name, go, errors)

    for name, ops in plan['tasks'].items():
        sim.spawn(name, wrap(env, name, task_body(env, plan, rec, name, ops, errors), errors),
                  restart=after_restart(name))
    sim.run()
    if sim.stuck:
        raise Violation('no-progress', 'stuck (%s) after %d steps' % (sim.stuck, sim.steps))
    if errors:
        n, o, typ, msg, tb = errors[0]
        raise Violation('spurious-error-%s' % typ, '%s in operation %s of %s: %s' % (typ, o, n, msg), tb=tb)
    sim.cur = None
    rec.call = call
    rec.ops = [o[:5] for o in rec.ops if o[2] != 'x']
    lost = sim.power
    if lost:
        sim.probe('power-lost')
        after_power(env, plan, rec, initial)
    else:
        before = sim.mono_ns
        try:
            final_reads(env, plan, rec)
        except Violation:
            raise
        except Exception as err:
            raise Violation('unusable-%s' % type(err).__name__, 'after the crash: %s: %s' % (type(err).__name__, err))
        if sim.mono_ns - before > 5 * 10 ** 9:
            raise Violation('stuck-lock', 'took %.1f s with no one else there' % ((sim.mono_ns - before) / 1e9))
        hard = check_history(rec, initial)
        if hard:
            sim.probe('history-too-hard', hard)
    from checks.fcommon import real_listing
    if [n for n in real_listing(env) if n.startswith('.') and n.endswith('.lock') and len(n) > 20]:
        sim.probe('tmp-left-behind')
    usable(env, plan)
    return {'nontrivial': bool(sim.probes.get('crash-in-op') or lost)}


def after_power(env, plan, rec, initial):
    """Every key has a value that it once was given, as a whole"""
    sim = env.sim
    env.fs.lose_power(plan['cut'], plan['tail'])
    allowed = {k: {canon(initial[k]) if k in initial else ABSENT} for k in plan['keys']}
    for _, _, kind, key, arg in rec.ops:
        if kind in ('w', 'W'):
            allowed[key].add(ABSENT if arg is ABSENT else canon(arg))
    start = sim.mono_ns
    try:
        store = open_store(conf(plan))
        got = dict(store.items())
        for k in got:
            if k not in plan['keys']:
                raise Violation('garbage', 'there is an entry that nobody stored: %r' % k)
        for k in plan['keys']:
            v = store.get(k, ABSENT)
            if (ABSENT if v is ABSENT else canon(v)) not in allowed[k]:
                raise Violation('garbage', '%r is %.80r after the power loss' % (k, v))
            if (k in store) != (v is not ABSENT) or (k in got) != (v is not ABSENT):
                raise Violation('garbage', '%r is there but can not be read' % k)
    except Violation:
        raise
    except Exception as err:
        raise Violation('unusable-%s' % type(err).__name__, 'after the power loss: %s: %s' % (
            type(err).__name__, err))
    if sim.mono_ns - start > 5 * 10 ** 9:
        raise Violation('stuck-lock', 'took %.1f s with no one else there' % ((sim.mono_ns - start) / 1e9))


def usable(env, plan):
    """Every entry can be written, read and removed"""
    sim = env.sim
    start = sim.mono_ns
    try:
        s1, s2 = open_store(conf(plan)), open_store(conf(plan))
        for i, k in enumerate(plan['keys']):
            s1[k] = 'after%d' % i
        for i, k in enumerate(plan['keys']):
            if s2[k] != 'after%d' % i or s1[k] != 'after%d' % i:
                raise Violation('unusable', '%r can not be changed after the crash' % k)
        if sorted(s2.keys()) != sorted(plan['keys']) or len(s2) != len(plan['keys']):
            raise Violation('unusable', 'keys %r, len %d' % (sorted(s2.keys()), len(s2)))
        s2.clear()
        for k in plan['keys']:
            if k in s1 or s1.get(k) is not None:
                raise Violation('unusable', '%r can not be removed after the crash' % k)
    except Violation:
        raise
    except Exception as err:
        raise Violation('unusable-%s' % type(err).__name__, 'after the crash: %s: %s' % (type(err).__name__, err))
    if sim.mono_ns - start > 5 * 10 ** 9:
        raise Violation('stuck-lock', 'took %.1f s with no one else there' % ((sim.mono_ns - start) / 1e9))
