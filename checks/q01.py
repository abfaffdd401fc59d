"""
Q01: the SQL storage is a mapping from owner to data, the same for every instance and after every restart.
"""
from checks.qcommon import OWNERS
from checks.qcommon import bad_value
from checks.qcommon import close
from checks.qcommon import gen_data
from checks.qcommon import open_sql
from checks.qcommon import setup_db
from sim.core import Violation

PROPERTY = 'Q01'
RUNS = {'quick': 9000, 'thorough': 150000}
RULE = ('8-50 operations through 1-3 instances (sessions of their own) on one data base over 1-5 owners, instances '
        'restarted in between, every result compared with one dict; non-trivial: an instance read what another one, '
        'or one since gone, wrote; distinct by event log')
REAL = ['oidcmsg.storage (absqlalchemy, db_setup, init)', 'SQLAlchemy', 'sqlite3']
STUBS = ['clock', 'waiting for locks']
ASSUMPTIONS = ['operations do not overlap (Q02 has those that do)', 'data is text of at most 4096 characters',
               'no more than one row per owner was there from the start']
PROBES = ('foreign-read', 'restart-with-content', 'update-missing', 'delete-missing', 'refused')
SHRINK = ('ops',)


def gen(rng, tier, index):
    plan = {'id_seed': rng.randrange(1 << 30)}
    n = rng.randrange(1, 6)
    owners = rng.sample(OWNERS, n) if rng.random() < 0.5 else OWNERS[:min(n, 3)]
    plan['owners'] = owners
    ni = plan['instances'] = rng.randrange(1, 4)
    w = {'set': 4, 'setitem': 2, 'update': 2, 'delete': 2, 'get': 4, 'in': 2, 'call': 1, 'iter': 0.7, 'str': 0.3,
         'flush': 0.3, 'restart': 1, 'bad': 0.8}
    for o in w:
        w[o] *= rng.choice([0, 1, 1, 1, 3]) if o not in ('set', 'get') else 1
    names, weights = list(w), list(w.values())
    ops = []
    for u in range(rng.randrange(8, 51)):
        o = rng.choices(names, weights)[0]
        op = {'u': u, 'o': o, 'h': rng.randrange(ni)}
        if o in ('set', 'setitem', 'update', 'delete', 'get', 'in', 'bad'):
            op['k'] = rng.choice(owners)
        if o == 'bad':
            op['how'] = rng.choice(['set', 'setitem', 'update'])
            op['what'] = rng.choice(['none', 'object', 'list'])
        if o in ('set', 'setitem', 'update'):
            op['v'] = gen_data(rng, u)
        ops.append(op)
    plan['ops'] = ops
    return plan


def simplify(plan):
    import json
    p = json.loads(json.dumps(plan))
    for op in p['ops']:
        if len(op.get('v', '')) > 12:
            op['v'] = 'v%d' % op['u']
    if p != plan:
        yield p


def run(env, plan):
    sim = env.start()
    setup_db()
    model = {}
    writer = {}
    foreign = 0
    gen_no = {}

    def opened(h):
        gen_no[h] = gen_no.get(h, 0) + 1
        return open_sql()

    hs = {h: opened(h) for h in range(plan['instances'])}

    def bad(what, got, want):
        raise Violation(what.split('(')[0].split(' ')[0], '%s is %.200r, should be %.200r' % (what, got, want))

    final = [{'u': 1000, 'o': 'restart', 'h': 0}, {'u': 1001, 'o': 'call', 'h': 0}] + [
        {'u': 1002, 'o': 'get', 'k': k, 'h': 0} for k in plan['owners']]
    for op in plan['ops'] + final:
        o, h, k = op['o'], op['h'], op.get('k')
        s = hs[h]
        sim.event('op', op['u'], o, k, h)
        sim.advance(10 ** 6)
        if o in ('set', 'setitem'):
            if o == 'set':
                s.set(k, op['v'])
            else:
                s[k] = op['v']
            model[k] = op['v']
            writer[k] = (h, gen_no[h])
        elif o == 'bad':
            v = bad_value(op['what'])
            try:
                if op['how'] == 'set':
                    s.set(k, v)
                elif op['how'] == 'update':
                    s.update(k, v)
                else:
                    s[k] = v
            except Exception as err:
                sim.event('refused', type(err).__name__)
                sim.probe('refused')
            else:
                if op['how'] != 'update' or k in model:
                    raise Violation('stored', '%s was stored' % op)
        elif o == 'update':
            s.update(k, op['v'])
            if k in model:
                model[k] = op['v']
                writer[k] = (h, gen_no[h])
            else:
                sim.probe('update-missing')
        elif o == 'delete':
            n = s.delete(k)
            if n != int(k in model):
                bad('delete(%r)' % k, n, int(k in model))
            if model.pop(k, None) is None:
                sim.probe('delete-missing')
        elif o == 'get':
            res = s.get(k)
            if res != model.get(k):
                bad('get(%r) by instance %d' % (k, h), res, model.get(k))
            if k in model and writer[k] != (h, gen_no[h]):
                foreign += 1
                sim.probe('foreign-read')
        elif o == 'in':
            if (k in s) != (k in model):
                bad('contains(%r) by instance %d' % (k, h), k in s, k in model)
        elif o in ('call', 'iter'):
            rows = list(s()) if o == 'call' else list(s)
            got = sorted((r.owner, r.data) for r in rows)
            if got != sorted(model.items()):
                bad('rows by instance %d' % h, got, sorted(model.items()))
        elif o == 'str':
            text = str(s)
            for k2, v2 in model.items():
                import json
                if [k2, v2] not in [r[1:3] for r in json.loads(text)]:
                    bad('str', text, model)
        elif o == 'flush':
            s.flush()
        elif o == 'restart':
            if model:
                sim.probe('restart-with-content')
            close(s)
            setup_db()
            hs[h] = opened(h)
    return {'nontrivial': foreign > 0}
