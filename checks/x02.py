"""
X02: contexts of different entities with a common storage configuration don't see each other's keys or data.
"""
from checks.f03 import wrap
from checks.xcommon import ISSUERS
from checks.xcommon import Model
from checks.xcommon import OWN
from checks.xcommon import do
from checks.xcommon import gen_context
from checks.xcommon import gen_ops
from checks.xcommon import start
from sim.core import Violation

PROPERTY = 'X02'
RUNS = {'quick': 8000, 'thorough': 150000}
RULE = ('2-3 entities, with similar names, each a process with a context of its own on one storage configuration '
        '({issuer} in the directory names), starting, storing, reading, importing keys and restarting concurrently, '
        'pre-empted at random calls, some killed and restarted; what each reads is what it stored itself; '
        'non-trivial: at least two stored something; distinct by event log')
REAL = ['oidcmsg.context', 'oidcmsg.storage', 'cryptojwt key jar and key serialization', 'filelock']
STUBS = ['scheduling, clock, time stamps, uuid/urandom (simulated)', 'a killed process: its stack is unwound, its '
         'files are closed']
ASSUMPTIONS = ['all stores that are to be separate have {issuer} in their directory name']
PROBES = ('crash', 'restarted', 'same-item', 'same-owner')
SHRINK = ('preempt', 'faults', 'tasks/*')


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': rng.choice([1, 10 ** 6]), 'tick_ns': 1000, 'id_seed': rng.randrange(1 << 30),
            'list_seed': rng.randrange(1 << 30)}
    gen_context(rng, plan, True)
    n = rng.choice([2, 2, 3])
    plan['issuers'] = rng.sample(ISSUERS, n)
    plan['own'] = [rng.sample(OWN, rng.randrange(1, 3)) for _ in range(n)]
    plan['tasks'] = {}
    u = 0
    used = [0]
    for i in range(n):
        plan['tasks']['e%d' % i], u = gen_ops(rng, plan, u, rng.randrange(2, 9), used)
    # all in one process, configured with one and the same object
    plan['together'] = int(rng.random() < 0.3)
    plan['walk'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0, 0.01, 0.05, 0.2])}
    faults = plan['faults'] = []
    if rng.random() < 0.4 and plan['source'] != 'path' and not plan['together']:
        t = rng.choice(list(plan['tasks']))
        faults.append({'task': t, 'op': rng.choice([-1] + [op['u'] for op in plan['tasks'][t]]),
                       'idx': rng.randrange(40), 'do': 'crash'})
    return plan


def run(env, plan):
    sim = env.start()
    sim.one_process = bool(plan['together'])
    conf = {} if plan['together'] else None
    errors = []
    models = [Model(plan, i, iss) for i, iss in enumerate(plan['issuers'])]
    at = [0] * len(models)
    sim.on_crash.append(lambda task: sim.probe('crash'))

    def proc(i):
        name, model = 'e%d' % i, models[i]

        def started(task, op):
            task.begin(op)
            ctx = start(plan, i, model.issuer, (), conf)
            model.begun(ctx)
            task.end()
            return ctx

        def go(task):
            ctx = started(task, -1)
            if task.inc:
                sim.probe('restarted')
            while at[i] < len(plan['tasks'][name]):
                op = plan['tasks'][name][at[i]]
                at[i] += 1
                if op['o'] == 'restart':
                    ctx = started(task, op['u'])
                else:
                    task.begin(op['u'])
                    do(op, ctx, model, sim)
                    task.end()

        return wrap(env, name, go, errors)

    for i in range(len(models)):
        sim.spawn('e%d' % i, proc(i), restart=proc(i))
    sim.run()
    if errors:
        n, o, typ, msg, tb = errors[0]
        raise Violation('exception-%s' % typ, '%s in operation %s of %s: %s' % (typ, o, n, msg), tb=tb)
    if sim.stuck:
        return
    sim.cur = None
    for i, model in enumerate(models):
        ctx = start(plan, i, model.issuer)
        model.begun(ctx)
        have = sorted(model.items)
        for m in models:
            if m is not model:
                if set(have) & set(m.items):
                    sim.probe('same-item')
                if set(model.keys) & set(m.keys):
                    sim.probe('same-owner')
                have += [k for k in sorted(m.items) if k not in have]
        for k in have:
            do({'o': 'get', 'k': k, 'u': 0}, ctx, model, sim)
        if plan['box']:
            for k in ('a', 'b'):
                do({'o': 'boxget', 'k': k, 'u': 0}, ctx, model, sim)
        do({'o': 'keys', 'u': 0}, ctx, model, sim)
    return {'nontrivial': sum(1 for m in models if m.items or m.keys) > 1}
