"""
L01: labelled stores that share a directory don't see or touch each other's entries, and each is a dictionary.
"""
from checks.f03 import wrap
from checks.fcommon import LHANDLER
from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Recorder
from checks.fcommon import Violation
from checks.fcommon import canon
from checks.fcommon import check_history
from checks.fcommon import conf
from checks.fcommon import gen_conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import perform
from checks.fcommon import shorten_values

PROPERTY = 'L01'
RUNS = {'quick': 15000, 'thorough': 400000}
RULE = ('2-4 simulated processes, each with a labelled handle (2-3 labels, several processes may share one) on one '
        'directory, 2-10 operations each, pre-empted at random calls, restarted between operations; history of '
        'each label checked for linearizability, then a restart and a full comparison; in one run of six the same '
        'operations on in-memory labelled dictionaries; non-trivial: at least two labels were written; distinct by '
        'event log')
REAL = ['oidcmsg.storage (abfile, extension, converter, init, utils)', 'filelock', 'CPython io']
STUBS = ['task scheduling, clock, time stamps, inode numbers, directory order, uuid/urandom (simulated)']
ASSUMPTIONS = ['labels contain no two underscores in a row and do not start or end with one', 'a handle is used by one task only']
PROBES = ('labels-share-key', 'lock-contention', 'memory')
simplify = shorten_values
LABELS = ['a', 'b', 'ab', 'a_b', 'my_label', 'client', 'x.y', 'å', 'a b', 'A', '1']


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': 1, 'tick_ns': 1000, 'list_seed': rng.randrange(1 << 30),
            'id_seed': rng.randrange(1 << 30)}
    gen_conf(rng, plan)
    nk = rng.choice([1, 2, 2, 3])
    keys = rng.sample(ODD_KEYS, nk) if rng.random() < 0.4 else list(PLAIN_KEYS[:nk])
    plan['keys'] = keys
    labels = rng.sample(LABELS, rng.choice([2, 2, 3]))
    plan['labels'] = labels
    if rng.random() < 0.35:  # something that looks like a label
        k = rng.choice(['__%s__', '__%s__k', 'x__%s__y', '%s', '__%s', '%s__']) % rng.choice(labels)
        if k not in keys:
            keys[rng.randrange(nk)] = k
    plan['mem'] = int(rng.random() < 0.17)
    w = {'set': 5, 'get': 2, 'getitem': 2, 'in': 1.5, 'del': 2, 'update': 1.5, 'len': 1.5, 'keys': 1.5,
         'items': 1, 'iter': 1, 'reopen': 1}
    names, weights = list(w), list(w.values())
    u = 0
    tasks = {}
    tl = {}
    nt = rng.choice([2, 2, 3, 4])
    for t in range(nt):
        tl['t%d' % t] = labels[t] if t < len(labels) else rng.choice(labels)
        ops = []
        for _ in range(rng.randrange(2, 11 if nt < 4 else 6)):
            o = rng.choices(names, weights)[0]
            op = {'u': u, 'o': o}
            if o in ('set', 'get', 'getitem', 'in', 'del'):
                op['k'] = rng.choice(keys)
            if o == 'set':
                op['v'] = gen_value(rng, u, plan['value_conv'], alike=0.15)
            elif o == 'update':
                op['kv'] = [[k, 'u%03d%d' % (u, i)] for i, k in enumerate(rng.sample(keys, rng.randrange(1, nk + 1)))]
            ops.append(op)
            u += 1
        tasks['t%d' % t] = ops
    plan['tasks'] = tasks
    plan['task_label'] = tl
    plan['preempt'] = []
    plan['faults'] = []
    plan['walk'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.0, 0.01, 0.03, 0.1, 0.2])}
    return plan


class View:
    """Same behaviour for missing keys as the others"""

    def __init__(self, store, plan):
        self.s = store
        self.plan = plan

    def __getitem__(self, k):
        res = self.s[k]
        if res is None:
            raise KeyError(k)
        return res

    def __setitem__(self, k, v):
        self.s[k] = v

    def __delitem__(self, k):
        del self.s[k]

    def __contains__(self, k):
        return k in self.s

    def __len__(self):
        return len(self.s)

    def __iter__(self):
        return iter(self.s)

    def get(self, k, default=None):
        return self.s.get(k, default) if default is not None else self.s.get(k)

    def keys(self):
        return self.s.keys()

    def items(self):
        return self.s.items()

    def update(self, ava):
        return self.s.update(ava)


def open_label(plan, label):
    c = dict(conf(plan), handler=LHANDLER, label=label)
    return View(open_store(c), plan)


def run(env, plan):
    sim = env.start()
    if plan['mem']:
        return memory(env, plan)
    recs = {la: Recorder(sim, plan['keys']) for la in plan['labels']}
    errors = []

    def body(name):
        label = plan['task_label'][name]

        def go(task):
            task.begin(-1)
            s = open_label(plan, label)
            task.end()
            for op in plan['tasks'][name]:
                task.begin(op['u'])
                if op['o'] == 'reopen':
                    s = open_label(plan, label)
                else:
                    perform(op, s, recs[label], plan['keys'])
                task.end()
        return wrap(env, name, go, errors)

    for name in plan['tasks']:
        sim.spawn(name, body(name))
    sim.run()
    if sim.stuck:
        raise Violation('no-progress', 'stuck (%s) after %d steps' % (sim.stuck, sim.steps))
    if errors:
        n, o, typ, msg, tb = errors[0]
        raise Violation('spurious-error-%s' % typ, '%s in operation %s of %s: %s' % (typ, o, n, msg), tb=tb)
    sim.cur = None
    total = 0
    for la in plan['labels']:
        s = open_label(plan, la)
        rec = recs[la]
        for i, o in enumerate(('items', 'keys', 'iter', 'len')):
            perform({'u': 10000 + i, 'o': o}, s, rec, plan['keys'])
        for k in plan['keys']:
            perform({'u': 10100, 'o': 'getitem', 'k': k}, s, rec, plan['keys'])
            perform({'u': 10100, 'o': 'in', 'k': k}, s, rec, plan['keys'])
        total += len(list(s.keys()))
        hard = check_history(rec, {})
        if hard:
            sim.probe('history-too-hard', hard)
    plain = open_store(conf(plan))
    if len(plain) != total:
        raise Violation('labels', 'labels have %d entries all in all, there are %d' % (total, len(plain)))
    written = {(la, o[3]) for la, r in recs.items() for o in r.ops if o[2] == 'w'}
    if len({k for _, k in written}) < len(written):
        sim.probe('labels-share-key')
    return {'nontrivial': len({la for la, _ in written}) > 1}


def memory(env, plan):
    """LabeledDict"""
    from oidcmsg.storage.extension import LabeledDict
    sim = env.sim
    sim.probe('memory')
    stores = {la: LabeledDict(la) for la in plan['labels']}
    models = {la: {} for la in plan['labels']}
    for name, ops in plan['tasks'].items():
        la = plan['task_label'][name]
        s, m = stores[la], models[la]
        for op in ops:
            o, k = op['o'], op.get('k')
            sim.event('op', la, op['u'], o, k)
            if o == 'set':
                s[k] = m[k] = op['v']
            elif o == 'del':
                if k in m:
                    del s[k]
                    del m[k]
            elif o == 'update':
                s.update(dict(op['kv']))
                m.update(dict(op['kv']))
            elif o in ('get', 'getitem'):
                res = s.get(k) if o == 'get' else s[k]
                if canon(res) != canon(m.get(k)):
                    raise Violation('memory', '%r is %r, should be %r' % (k, res, m.get(k)))
            elif o == 'in':
                if (k in s) != (k in m):
                    raise Violation('memory', '%r in store is %s' % (k, k in s))
            else:
                if sorted(s.keys()) != sorted(m):
                    raise Violation('memory', 'keys %r, should be %r' % (s.keys(), sorted(m)))
                if canon(dict(iter(s))) != canon(m):
                    raise Violation('memory', 'iteration gave %r, should be %r' % (dict(iter(s)), m))
    return {'nontrivial': sum(1 for m in models.values() if m) > 1}
