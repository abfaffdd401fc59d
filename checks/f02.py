"""
F02: every handle sees what the others have done.

Several processes (handles) work on one directory, one operation at a time but in any order. Each operation's
result must be what one dict for all of them gives. The clock is stepped back and forth and file time stamps
are as coarse as file systems have them, values have the same size and are rewritten within one tick.
"""
import os

from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Violation
from checks.fcommon import advance_past_granularity
from checks.fcommon import canon
from checks.fcommon import conf
from checks.fcommon import gen_conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import same
from checks.fcommon import shorten_values

PROPERTY = 'F02'
RUNS = {'quick': 20000, 'thorough': 400000}
RULE = ('2-4 handles in 2-3 simulated processes on one directory, 8-60 operations in random order over 1-4 keys, '
        'with clock steps, coarse time stamps, handles closed and opened; every result compared with one shared '
        'dict; non-trivial: some handle read an entry that another handle had changed since it last looked; '
        'distinct by event log')
REAL = ['oidcmsg.storage (abfile, converter, init, utils)', 'filelock', 'CPython io']
STUBS = ['file time stamps, inode numbers and directory order (simulated)', 'clock', 'uuid/urandom',
         'data and path lookup: real tmpfs']
ASSUMPTIONS = ['operations do not overlap (F03 has those that do)',
               'a key deleted and created again within one tick of the file system clock, with no access by the '
               'reading handle in between, is not generated',
               'values survive the value converter']
PROBES = ('foreign-change-read', 'same-tick-overwrite', 'foreign-delete-seen', 'overwrite-clock-back')
SHRINK = ('ops',)
simplify = shorten_values


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': rng.choice([1, 1000, 10 ** 6, 10 ** 9, 2 * 10 ** 9]),
            'tick_ns': rng.choice([1, 1, 1000, 10 ** 6]),
            'list_seed': rng.randrange(1 << 30), 'id_seed': rng.randrange(1 << 30)}
    gen_conf(rng, plan)
    nk = rng.randrange(1, 5)
    keys = rng.sample(ODD_KEYS, nk) if rng.random() < 0.3 else PLAIN_KEYS[:nk]
    plan['keys'] = keys
    nh = plan['handles'] = rng.randrange(2, 5)
    w = {'set': 5, 'get': 3, 'getitem': 4, 'in': 1.5, 'del': 2, 'update': 0.7, 'clear': 0.3, 'len': 1,
         'keys': 1, 'items': 1.5, 'iter': 0.3, 'call': 0.3, 'reopen': 0.5, 'clock': 0.8, 'sleep': 0.5}
    for o in w:
        w[o] *= rng.choice([0, 1, 1, 1, 3]) if o not in ('set', 'getitem') else 1
    names, weights = list(w), list(w.values())
    ops = []
    for u in range(rng.randrange(8, 61)):
        o = rng.choices(names, weights)[0]
        op = {'u': u, 'o': o}
        if o not in ('clock', 'sleep'):
            op['h'] = rng.randrange(nh)
        if o in ('set', 'get', 'getitem', 'in', 'del'):
            op['k'] = rng.choice(keys)
        if o == 'set':
            # values of the same size, most of the time
            op['v'] = 'v%04d' % u if rng.random() < 0.6 else gen_value(rng, u, plan['value_conv'], alike=0.15)
        elif o == 'update':
            op['kv'] = [[k, 'u%03d%d' % (u, i)] for i, k in enumerate(rng.sample(keys, rng.randrange(0, nk + 1)))]
        elif o == 'clock':
            op['ns'] = rng.choice([-1, -1, 1]) * rng.choice([1, 10 ** 3, 10 ** 6, 10 ** 9, 3600 * 10 ** 9, 10 ** 17])
        elif o == 'sleep':
            op['ns'] = rng.choice([10 ** 3, 10 ** 6, 10 ** 9, 10 ** 13])
        ops.append(op)
    for h in range(nh):
        ops.append({'u': len(ops), 'o': 'items', 'h': h})
    plan['ops'] = ops
    return plan


def expect(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def run(env, plan):
    sim = env.start()
    c = conf(plan)
    model = {}
    hs = {}
    seen = {}  # (handle, key) -> version
    version = {}
    mtimes = {}  # file name -> time stamps it has had
    foreign = 0

    def stamps():
        d = os.path.join(env.fs.root, 'db')
        for n in env_listing(env):
            st = env.fs.lst(os.path.join(d, n))
            if st is not None:
                mtimes.setdefault(n, set()).add(env.fs.inode(st.st_ino)['m'])

    def creating(k):
        """Someone's about to create a file. Not with a time stamp that name has had before."""
        if k in model:
            if env.fs.stamp() in set().union(*mtimes.values()):
                sim.probe('same-tick-overwrite')
            elif mtimes and env.fs.stamp() < max(set().union(*mtimes.values())):
                sim.probe('overwrite-clock-back')
            return
        if version.get(k):
            used = set().union(*mtimes.values()) if mtimes else set()
            # the creation itself takes a number of ticks
            while any(env.fs.stamp() <= m <= env.fs.stamp() + 400 * sim.tick_ns + env.fs.gran for m in used):
                sim.advance(max(max(used) + env.fs.gran + 1 - sim.now_ns, 1))
                advance_past_granularity(env)

    def changed(k, h):
        version[k] = version.get(k, 0) + 1
        seen[(h, k)] = version[k]

    def looked(h, k):
        nonlocal foreign
        if seen.get((h, k), 0) != version.get(k, 0):
            foreign += 1
            sim.probe('foreign-change-read')
            if k not in model:
                sim.probe('foreign-delete-seen')
            seen[(h, k)] = version[k]

    for h in range(plan['handles']):
        hs[h] = open_store(c)
    for op in plan['ops']:
        o, k, h = op['o'], op.get('k'), op.get('h')
        sim.event('op', op['u'], o, k, h)
        store = hs.get(h)
        if o == 'reopen':
            hs[h] = open_store(c)
        elif o == 'set':
            creating(k)
            store[k] = op['v']
            model[k] = op['v']
            changed(k, h)
            stamps()
        elif o == 'get':
            res = store.get(k)
            expect(res is None and k not in model or k in model and same(res, model[k]), 'get',
                   'handle %d: get(%r) returned %r, stored is %r' % (h, k, res, model.get(k, 'nothing')))
            looked(h, k)
        elif o == 'getitem':
            try:
                res = store[k]
            except KeyError:
                expect(k not in model, 'getitem', 'handle %d: KeyError for %r, stored is %r' % (h, k, model.get(k)))
            else:
                expect(k in model and same(res, model[k]), 'getitem', 'handle %d: [%r] returned %r, stored is %r' % (
                    h, k, res, model.get(k, 'nothing')))
            looked(h, k)
        elif o == 'in':
            expect((k in store) == (k in model), 'in', 'handle %d: %r in store is %s' % (h, k, k not in model))
        elif o == 'del':
            del store[k]
            if model.pop(k, None) is not None:
                changed(k, h)
        elif o == 'update':
            for kk, vv in op['kv']:
                creating(kk)
            store.update({kk: vv for kk, vv in op['kv']})
            model.update({kk: vv for kk, vv in op['kv']})
            for kk, _ in op['kv']:
                changed(kk, h)
            stamps()
        elif o == 'clear':
            store.clear()
            for kk in model:
                changed(kk, h)
            model.clear()
        elif o == 'len':
            expect(len(store) == len(model), 'len', 'handle %d: len() is %d, there are %d entries' % (
                h, len(store), len(model)))
        elif o in ('keys', 'call'):
            res = list(store.keys()) if o == 'keys' else list(store())
            expect(sorted(res) == sorted(model), 'keys', 'handle %d: keys %r, stored %r' % (
                h, sorted(res), sorted(model)))
            for kk in plan['keys']:
                looked(h, kk)
        elif o in ('items', 'iter'):
            res = list(store.items()) if o == 'items' else list(store)
            expect(sorted((kk, canon(vv)) for kk, vv in res) == sorted((kk, canon(vv)) for kk, vv in model.items()),
                   'items', 'handle %d: items %r, stored %r' % (h, res, model))
            for kk in plan['keys']:
                looked(h, kk)
        elif o == 'clock':
            sim.step_clock(op['ns'])
            sim.fire('clock-step')
        elif o == 'sleep':
            sim.advance(op['ns'])
    return {'nontrivial': foreign > 0}


def env_listing(env):
    from sim import vfs
    d = os.path.join(env.fs.root, 'db')
    return sorted(n for n in vfs.R['os.listdir'](d) if not n.endswith('.lock'))
