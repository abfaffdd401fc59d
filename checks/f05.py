"""
F05: a failing system call makes an operation fail, nothing else.

Two handles in one task, operations one at a time, with I/O errors, full disks, short writes and exhausted
resources injected at chosen calls of chosen operations. An operation that doesn't raise has done what it should,
one that raises has done it or not, per entry, and everything works again when the errors stop.
"""
from checks.f03 import wrap
from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Violation
from checks.fcommon import canon
from checks.fcommon import conf
from checks.fcommon import gen_conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import shorten_values
from sim.core import ELIGIBLE
from sim.lin import ABSENT

PROPERTY = 'F05'
RUNS = {'quick': 25000, 'thorough': 500000}
RULE = ('4-20 operations through two handles on 1-3 keys; in about a third of the operations a call fails with EIO, '
        'ENOSPC, EDQUOT, EMFILE or ENOMEM (once, or all such calls until the operation ends), or a write is short '
        'or stops half way; non-trivial: an injected error fired; distinct by event log')
REAL = ['oidcmsg.storage (abfile, converter, init, utils)', 'filelock (on flock of the real kernel)', 'CPython io']
STUBS = ['the outcome of the chosen system calls', 'clock, time stamps, inode numbers, directory order, uuid/urandom']
ASSUMPTIONS = ['stat() only fails when there is nothing with that name (os.path.isfile can not tell)',
               'closing and unlocking a file does not fail',
               'a listing made while reads fail may leave out entries it could not read, if that handle has not '
               'had them before']
PROBES = ('op-raised', 'write-failed-old', 'write-failed-new', 'read-failed', 'short', 'enospc-partial',
          'failed-then-same-handle')
simplify = shorten_values


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': rng.choice([1, 1, 1000]), 'tick_ns': 1000, 'list_seed': rng.randrange(1 << 30),
            'id_seed': rng.randrange(1 << 30)}
    gen_conf(rng, plan)
    nk = rng.choice([1, 2, 2, 3])
    keys = rng.sample(ODD_KEYS, nk) if rng.random() < 0.2 else PLAIN_KEYS[:nk]
    plan['keys'] = keys
    w = {'set': 5, 'get': 2, 'getitem': 3, 'in': 1, 'del': 2.5, 'update': 1, 'clear': 0.7, 'len': 0.7,
         'keys': 0.7, 'items': 1.5, 'reopen': 0.7}
    names, weights = list(w), list(w.values())
    ops, faults = [], []
    rate = rng.choice([0.15, 0.35, 0.6])
    for u in range(rng.randrange(4, 21)):
        o = rng.choices(names, weights)[0]
        op = {'u': u, 'o': o, 'h': rng.randrange(2)}
        if o in ('set', 'get', 'getitem', 'in', 'del'):
            op['k'] = rng.choice(keys)
        if o == 'set':
            op['v'] = gen_value(rng, u, plan['value_conv'], rng.choice([0, 5, 300, 9000, 20000]))
        elif o == 'update':
            op['kv'] = [[k, 'u%03d%d' % (u, i)] for i, k in enumerate(rng.sample(keys, rng.randrange(1, nk + 1)))]
        ops.append(op)
        if rng.random() < rate:
            r = rng.random()
            f = {'task': 't0', 'op': u, 'idx': rng.choice([0, 0, rng.randrange(8), rng.randrange(20)])}
            if r < 0.1:
                f.update(do='short', frac=rng.choice([0, 0.2, 0.7]))
            elif r < 0.2:
                f.update(do='enospc-partial', frac=rng.choice([0, 0.2, 0.7, 1]))
            else:
                f.update(do='err', e=rng.choice(['EIO', 'EIO', 'EIO', 'ENOSPC', 'EDQUOT', 'EMFILE', 'ENOMEM']))
                if rng.random() < 0.35:
                    f['sticky'] = 1
                if rng.random() < 0.4:
                    f['kind'] = rng.choice([x for x in ELIGIBLE[f['e']] if x != 'mkdir'])
                    f['idx'] = rng.choice([0, 0, rng.randrange(20)])
                if o in ('get', 'getitem', 'items', 'keys', 'reopen') and f['e'] == 'EIO' and rng.random() < 0.6:
                    f['kind'], f['idx'] = 'read', rng.choice([0, 0, 0, 8, rng.randrange(20)])
            faults.append(f)
    plan['tasks'] = {'t0': ops}
    plan['faults'] = faults
    plan['initial'] = [[k, 'i%d' % i] for i, k in enumerate(keys) if rng.random() < 0.7]
    return plan


def run(env, plan):
    sim = env.start()
    keys = plan['keys']
    store = open_store(conf(plan))
    # what each key can be. One possibility, more only after a failed write that nobody has looked at
    may = {k: {ABSENT} for k in keys}
    for k, v in plan['initial']:
        store[k] = v
        may[k] = {canon(v)}
    errors = []
    state = {'fired': 0}

    def saw(k, v, what):
        v = ABSENT if v is ABSENT else canon(v)
        if v not in may[k]:
            raise Violation('wrong-data', '%s: %r is %.60s, should be %.120s' % (what, k, v, sorted(map(str, may[k]))))
        if len(may[k]) > 1:
            sim.probe('write-failed-old' if v == may_old.get(k) else 'write-failed-new')
        may[k] = {v}

    may_old = {}

    def wrote(k, v, ok):
        v = ABSENT if v is ABSENT else canon(v)
        if ok:
            may[k] = {v}
        else:
            if len(may[k]) == 1:
                may_old[k] = list(may[k])[0]
            may[k] = may[k] | {v}

    def body(task):
        hs = [open_store(conf(plan)), open_store(conf(plan))]
        broken = set()
        known = [set(), set()]  # what a handle has got hold of since
        for op in plan['tasks']['t0'] + [{'u': 1000 + i, 'o': o, 'h': i % 2, 'final': 1} for i, o in
                                         enumerate(['items', 'items', 'keys', 'keys', 'len', 'len'])]:
            o, h, k = op['o'], op['h'], op.get('k')
            s = hs[h]
            before = sum(n for kind, n in sim.fired.items() if kind != 'short')
            task.begin(op['u'])
            sim.event('op', op['u'], o, k, h)
            err = None
            res = None
            try:
                if o == 'set':
                    s[k] = op['v']
                elif o == 'del':
                    del s[k]
                elif o == 'update':
                    s.update({kk: vv for kk, vv in op['kv']})
                elif o == 'clear':
                    s.clear()
                elif o == 'get':
                    res = s.get(k, ABSENT)
                elif o == 'getitem':
                    try:
                        res = s[k]
                    except KeyError:
                        res = ABSENT
                elif o == 'in':
                    res = k in s
                elif o == 'len':
                    res = len(s)
                elif o == 'keys':
                    res = list(s.keys())
                elif o == 'items':
                    res = list(s.items())
                elif o == 'reopen':
                    hs[h] = open_store(conf(plan))
            except OSError as e:
                err = e
            task.end()
            fired = sum(n for kind, n in sim.fired.items() if kind != 'short') > before
            if err is not None:
                if not fired:
                    raise Violation('error-without-cause', '%s (operation %d): %r%s' % (
                        o, op['u'], err, ' by a handle that has had errors' if h in broken else ''))
                sim.probe('op-raised')
                broken.add(h)
            elif h in broken and not fired:
                sim.probe('failed-then-same-handle')
            ok = err is None
            had = set(known[h])
            if o in ('set', 'get', 'getitem'):
                known[h].discard(k)
                if ok and res is not ABSENT:
                    known[h].add(k)
            elif o == 'del':
                known[h].discard(k)
            elif o not in ('in', 'len'):
                known[h].clear()
                if ok and o in ('keys', 'items'):
                    known[h].update(r if o == 'keys' else r[0] for r in res)
            if o == 'set':
                wrote(k, op['v'], ok)
            elif o == 'del':
                wrote(k, ABSENT, ok)
            elif o == 'update':
                for kk, vv in op['kv']:
                    wrote(kk, vv, ok)
            elif o == 'clear':
                for kk in keys:
                    wrote(kk, ABSENT, ok)
            elif not ok:
                sim.probe('read-failed')
            elif o in ('get', 'getitem'):
                saw(k, res, '%s by handle %d' % (o, h))
            elif o == 'in':
                if res and may[k] == {ABSENT} or not res and ABSENT not in may[k]:
                    raise Violation('wrong-data', '%r in store is %s' % (k, res))
            elif o == 'len':
                lo = sum(1 for kk in keys if ABSENT not in may[kk])
                hi = sum(1 for kk in keys if may[kk] != {ABSENT})
                if not lo <= res <= hi:
                    raise Violation('wrong-data', 'len is %d, should be %d-%d' % (res, lo, hi))
            elif o in ('keys', 'items'):
                names = [r if o == 'keys' else r[0] for r in res]
                if len(set(names)) != len(names) or set(names) - set(keys):
                    raise Violation('wrong-data', '%s are %r' % (o, names))
                for kk in keys:
                    if kk in names:
                        if o == 'items':
                            saw(kk, dict(res)[kk], 'items of handle %d' % h)
                        elif may[kk] == {ABSENT}:
                            raise Violation('wrong-data', '%r is a key but should not be' % kk)
                    elif (not fired or kk in had) and ABSENT not in may[kk]:
                        raise Violation('wrong-data', '%r is not listed by handle %d' % (kk, h))
            if o == 'reopen' and ok:
                broken.discard(h)
        for kk in keys:
            for h in (0, 1):
                saw(kk, hs[h].get(kk, ABSENT), 'at the end, handle %d' % h)

    sim.spawn('t0', wrap(env, 't0', body, errors))
    sim.run()
    if sim.stuck:
        raise Violation('no-progress', 'stuck (%s) after %d steps' % (sim.stuck, sim.steps))
    if errors:
        n, o, typ, msg, tb = errors[0]
        raise Violation('unexpected-%s' % typ, '%s in operation %s: %s' % (typ, o, msg), tb=tb)
    sim.cur = None
    from checks.f04 import usable
    usable(env, plan)
    return {'nontrivial': bool(sim.fired)}
