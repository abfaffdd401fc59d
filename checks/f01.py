"""
F01: the file based storage is a dictionary, also across restarts.

One process at a time, working on a directory through one handle, restarting (a new handle, nothing but the
directory survives) at arbitrary points between operations, under a clock that is stepped and time stamps as
coarse as file systems have them. Compared, operation by operation, with a dict.
"""
from checks.fcommon import JSON
from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Violation
from checks.fcommon import advance_past_granularity
from checks.fcommon import canon
from checks.fcommon import conf
from checks.fcommon import gen_conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import same
from checks.fcommon import shorten_values

PROPERTY = 'F01'
RUNS = {'quick': 15000, 'thorough': 400000}
RULE = ('a random history of 5-60 operations (set, get, [], in, del, update, clear, len, keys, items, iteration, '
        'call, restart, clock step) over 3-8 keys (half of the runs with keys that are awkward as file names); '
        'non-trivial: at least one restart with entries present and one read after it; distinct by event log')
REAL = ['oidcmsg.storage (abfile, converter, init, utils)', 'filelock', 'CPython io']
STUBS = ['file time stamps, inode numbers and directory order (simulated)', 'clock', 'uuid/urandom',
         'data and path lookup: real tmpfs']
ASSUMPTIONS = ['file name of a key at most 250 bytes, non-empty keys',
               'values survive the value converter (PassThru: no white space at either end, no CR; JSON: JSON values)',
               'a key deleted and created again within one tick of the file system clock is not generated']
PROBES = ('restart', 'restart-with-content', 'odd-key', 'overwrite', 'delete-present', 'clear-nonempty')
SHRINK = ('ops',)
simplify = shorten_values


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': rng.choice([1, 1, 1000, 10 ** 6, 10 ** 9, 2 * 10 ** 9]),
            'tick_ns': rng.choice([1, 1000, 10 ** 6]),
            'list_seed': rng.randrange(1 << 30), 'id_seed': rng.randrange(1 << 30)}
    gen_conf(rng, plan)
    nk = rng.randrange(3, 9)
    if rng.random() < 0.5:
        keys = rng.sample(ODD_KEYS, nk)
    else:
        keys = PLAIN_KEYS[:nk]
    plan['keys'] = keys
    w = {'set': 6, 'get': 3, 'getitem': 3, 'in': 2, 'del': 3, 'update': 1, 'clear': 0.3, 'len': 1.5,
         'keys': 1, 'items': 1, 'iter': 0.5, 'call': 0.5, 'reopen': 1.5, 'clock': 0.7, 'sleep': 0.5}
    # swarm: every run has its own mix
    for o in w:
        w[o] *= rng.choice([0, 1, 1, 1, 3]) if o not in ('set', 'getitem') else 1
    names, weights = list(w), list(w.values())
    ops = []
    for u in range(rng.randrange(5, 61)):
        o = rng.choices(names, weights)[0]
        op = {'u': u, 'o': o}
        if o in ('set', 'get', 'getitem', 'in', 'del'):
            op['k'] = rng.choice(keys)
        if o == 'set':
            op['v'] = gen_value(rng, u, plan['value_conv'], alike=0.15)
        elif o == 'update':
            op['kv'] = [[k, gen_value(rng, '%d%d' % (u, i) if plan['value_conv'] != JSON else u * 100 + i,
                                      plan['value_conv'])]
                        for i, k in enumerate(rng.sample(keys, rng.randrange(0, min(4, nk) + 1)))]
        elif o == 'clock':
            op['ns'] = rng.choice([-1, 1]) * rng.choice([1, 10 ** 3, 10 ** 9, 3600 * 10 ** 9, 10 ** 17])
        elif o == 'sleep':
            op['ns'] = rng.choice([10 ** 6, 10 ** 9, 10 ** 13])
        ops.append(op)
    ops.append({'u': len(ops), 'o': 'reopen'})
    ops.append({'u': len(ops), 'o': 'items'})
    plan['ops'] = ops
    return plan


def expect(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def run(env, plan):
    sim = env.start()
    c = conf(plan)
    model = {}
    store = None
    restarts = 0
    removed = set()

    def creating(k):
        if k in removed:
            advance_past_granularity(env)
            removed.discard(k)

    for op in [{'o': 'reopen', 'u': -1}] + plan['ops']:
        o, k = op['o'], op.get('k')
        sim.event('op', op['u'], o, k)
        if k in ('.', '..', 'x.lock', '.lock', '../x', 'a/b', '\x00'):
            sim.probe('odd-key')
        if o == 'reopen':
            store = open_store(c)
            sim.probe('restart')
            if model:
                sim.probe('restart-with-content')
                restarts += 1
        elif o == 'set':
            creating(k)
            if k in model:
                sim.probe('overwrite')
            store[k] = op['v']
            model[k] = op['v']
        elif o == 'get':
            res = store.get(k)
            expect(res is None and k not in model or k in model and same(res, model[k]), 'get',
                   'get(%r) returned %r, stored is %r' % (k, res, model.get(k, 'nothing')))
            d = store.get(k, 'dflt')
            expect(same(d, model.get(k, 'dflt')), 'get-default',
                   'get(%r, "dflt") returned %r, stored is %r' % (k, d, model.get(k, 'nothing')))
        elif o == 'getitem':
            try:
                res = store[k]
            except KeyError:
                expect(k not in model, 'getitem', 'KeyError for %r, stored is %r' % (k, model.get(k)))
            else:
                expect(k in model and same(res, model[k]), 'getitem', '[%r] returned %r, stored is %r' % (
                    k, res, model.get(k, 'nothing')))
        elif o == 'in':
            expect((k in store) == (k in model), 'in', '%r in store is %s' % (k, k not in model))
        elif o == 'del':
            if k in model:
                sim.probe('delete-present')
                removed.add(k)
            del store[k]
            model.pop(k, None)
        elif o == 'update':
            for kk, vv in op['kv']:
                creating(kk)
            store.update({kk: vv for kk, vv in op['kv']})
            model.update({kk: vv for kk, vv in op['kv']})
        elif o == 'clear':
            if model:
                sim.probe('clear-nonempty')
            removed |= set(model)
            store.clear()
            model.clear()
        elif o == 'len':
            expect(len(store) == len(model), 'len', 'len() is %d, there are %d entries' % (len(store), len(model)))
        elif o in ('keys', 'call'):
            res = list(store.keys()) if o == 'keys' else list(store())
            expect(sorted(res) == sorted(model), 'keys', 'keys %r, stored %r' % (sorted(res), sorted(model)))
        elif o in ('items', 'iter'):
            res = list(store.items()) if o == 'items' else list(store)
            expect(sorted((kk, canon(vv)) for kk, vv in res) == sorted((kk, canon(vv)) for kk, vv in model.items()),
                   'items', 'items %r, stored %r' % (res, model))
        elif o == 'clock':
            sim.step_clock(op['ns'])
            sim.fire('clock-step')
        elif o == 'sleep':
            sim.advance(op['ns'])
    return {'nontrivial': restarts > 0}
