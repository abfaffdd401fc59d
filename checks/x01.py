"""
X01: what a context with persistent storage has stored, its keys first of all, is there after every restart, once.
"""
from checks.f03 import wrap
from checks.xcommon import ISSUERS
from checks.xcommon import Model
from checks.xcommon import OWN
from checks.xcommon import do
from checks.xcommon import gen_context
from checks.xcommon import gen_ops
from checks.xcommon import start
from sim.core import Violation

PROPERTY = 'X01'
RUNS = {'quick': 9000, 'thorough': 150000}
RULE = ('one entity, configured with a JWKS, a key file or no keys, data and keys in file storage, 4-20 operations '
        '(set, get, import of keys, restart) with 1-2 contexts at a time, killed at chosen calls of chosen operations '
        'incl. the start, then restarted; contents compared with what was stored; non-trivial: there was a restart '
        'with something stored; distinct by event log')
REAL = ['oidcmsg.context', 'oidcmsg.storage', 'cryptojwt key jar and key serialization', 'filelock']
STUBS = ['scheduling, clock, time stamps, uuid/urandom (simulated)', 'a killed process: its stack is unwound, its '
         'files are closed']
ASSUMPTIONS = ['keys are configured as JWKS or with a private_path; key_defs alone makes new keys at every start',
               'not killed while cryptojwt writes the file named by private_path',
               'what goes into the key jar goes in by import_jwks']
PROBES = ('restarted', 'crash-in-start', 'crash-in-op', 'two-contexts', 'key-added')
SHRINK = ('faults', 'ops')


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': rng.choice([1, 1, 10 ** 6, 10 ** 9]), 'tick_ns': 1000, 'id_seed': rng.randrange(1 << 30),
            'list_seed': rng.randrange(1 << 30)}
    gen_context(rng, plan, False)
    plan['issuer'] = rng.choice(ISSUERS)
    plan['own'] = [rng.sample(OWN, rng.randrange(1, 4))]
    ops, u = gen_ops(rng, plan, 0, rng.randrange(4, 21), [0])
    plan['contexts'] = rng.choice([1, 1, 2])
    for op in ops:
        op['c'] = rng.randrange(plan['contexts'])
        if op['o'] == 'restart' and plan['source'] == 'jwks' and rng.random() < 0.4:
            op['add'] = rng.choice(OWN)
    plan['sameconf'] = int(rng.random() < 0.3)
    plan['ops'] = ops
    faults = plan['faults'] = []
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 2, 3])):
            hot = [op for op in ops if op['o'] in ('set', 'import', 'restart', 'boxset')]
            if rng.random() < 0.35 and plan['source'] != 'path' or not hot:
                where = -1
                if plan['source'] == 'path':
                    continue
            else:
                op = rng.choice(hot)
                where = op['u']
            faults.append({'task': 'p', 'op': where, 'idx': rng.randrange(50 if where == -1 else 30),
                           'do': rng.choice(['crash', 'crash', 'crash-partial']), 'frac': rng.random()})
    return plan


def run(env, plan):
    sim = env.start()
    env_model = Model(plan, 0, plan['issuer'])
    errors = []
    at = [0]
    state = {'restarts': 0}
    conf = {}

    def crashed(task):
        if task is not None:
            sim.probe('crash-in-start' if task.op == -1 else 'crash-in-op')

    sim.on_crash.append(crashed)

    def started(task):
        task.begin(-1)
        ctx = start(plan, 0, plan['issuer'], env_model.extra, conf if plan['sameconf'] else None)
        env_model.begun(ctx)
        task.end()
        return ctx

    def go(task):
        conf.clear()
        ctxs = [started(task) for _ in range(plan['contexts'])]
        if len(ctxs) > 1:
            sim.probe('two-contexts')
        if task.inc:
            sim.probe('restarted')
            state['restarts'] += bool(env_model.items or env_model.keys or env_model.own)
        while at[0] < len(plan['ops']):
            op = plan['ops'][at[0]]
            at[0] += 1
            task.begin(op['u'])
            if op['o'] == 'restart':
                if op.get('add') and op['add'] not in plan['own'][0] + env_model.extra:
                    env_model.extra.append(op['add'])
                    sim.probe('key-added')
                ctxs[op['c']] = start(plan, 0, plan['issuer'], env_model.extra, conf if plan['sameconf'] else None)
                env_model.begun(ctxs[op['c']])
                state['restarts'] += bool(env_model.items or env_model.keys or env_model.own)
            else:
                do(op, ctxs[op['c']], env_model, sim)
            task.end()

    sim.spawn('p', wrap(env, 'p', go, errors), restart=wrap(env, 'p', go, errors))
    sim.run()
    if errors:
        n, o, typ, msg, tb = errors[0]
        raise Violation('exception-%s' % typ, '%s in operation %s: %s' % (typ, o, msg), tb=tb)
    if sim.stuck:
        return
    sim.cur = None
    ctx = start(plan, 0, plan['issuer'], env_model.extra)
    env_model.begun(ctx)
    for k in sorted(env_model.items):
        do({'o': 'get', 'k': k, 'u': 0}, ctx, env_model, sim)
    if plan['box']:
        for k in sorted(env_model.box):
            do({'o': 'boxget', 'k': k, 'u': 0}, ctx, env_model, sim)
    do({'o': 'keys', 'u': 0}, ctx, env_model, sim)
    return {'nontrivial': state['restarts'] > 0}
