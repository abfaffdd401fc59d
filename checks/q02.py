"""
Q02: every operation on the SQL storage is atomic, whatever fails and whoever else is at it.
"""
import sqlalchemy.exc

from checks.qcommon import OWNERS
from checks.qcommon import bad_value
from checks.qcommon import gen_data
from checks.qcommon import open_sql
from checks.qcommon import setup_db
from checks.qcommon import sqlseam
from sim import lin
from sim.core import SimCrash
from sim.core import SimStuck
from sim.core import Violation

PROPERTY = 'Q02'
RUNS = {'quick': 8000, 'thorough': 150000}
RULE = ('2-4 tasks, with instances of their own (processes) or one in common (threads), 3-10 operations each on 1-3 '
        'owners, switches at statements and commits, injected errors before and after statements and commits, '
        'crashes with restart, stalls while locks are held; every history checked for linearizability per owner; '
        'non-trivial: operations overlapped or a fault was injected; distinct by event log')
REAL = ['oidcmsg.storage (absqlalchemy, db_setup, init)', 'SQLAlchemy', 'sqlite3']
STUBS = ['clock', 'waiting for locks', 'scheduling']
ASSUMPTIONS = ['SQLite does what it promises about transactions', 'no crashes when the instance is shared by threads']
PROBES = ('db-locked', 'db-locked-timeout', 'failed-op', 'overlap')
SHRINK = ('preempt', 'faults', 'tasks/*')

SQL_KINDS = ('sql-select', 'sql-insert', 'sql-delete', 'sql-update', 'sql-commit')


def gen(rng, tier, index):
    plan = {'id_seed': rng.randrange(1 << 30)}
    owners = plan['owners'] = rng.sample(OWNERS, rng.randrange(1, 4)) if rng.random() < 0.3 else \
        OWNERS[:rng.randrange(1, 4)]
    shared = plan['shared'] = rng.random() < 0.3
    nt = rng.randrange(2, 5) if rng.random() < 0.85 else 1
    w = {'set': 4, 'setitem': 2, 'update': 2, 'delete': 2, 'get': 5, 'in': 2, 'call': 1, 'iter': 0.5, 'flush': 0.4,
         'bad': 0.7}
    for o in w:
        w[o] *= rng.choice([0, 1, 1, 3]) if o not in ('set', 'get') else 1
    names, weights = list(w), list(w.values())
    plan['before'] = [[k, 'init.%d' % i] for i, k in enumerate(owners) if rng.random() < 0.7]
    tasks = plan['tasks'] = {}
    u = 0
    for t in range(nt):
        ops = tasks['t%d' % t] = []
        for _ in range(rng.randrange(3, 11)):
            o = rng.choices(names, weights)[0]
            op = {'u': u, 'o': o}
            if o not in ('call', 'iter', 'flush'):
                op['k'] = rng.choice(owners)
            if o in ('set', 'setitem', 'update'):
                op['v'] = gen_data(rng, u)
            elif o == 'bad':
                op['what'] = rng.choice(['none', 'object', 'list'])
            ops.append(op)
            u += 1
    plan['walk'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0, 0.1, 0.3, 0.6])}
    faults = plan['faults'] = []
    if rng.random() < 0.7:
        for _ in range(rng.choice([1, 1, 2, 4])):
            t = rng.choice(list(tasks))
            op = rng.choice(tasks[t])
            kind = rng.choice(SQL_KINDS) + rng.choice(['', '-done'])
            what = rng.random()
            f = {'task': t, 'op': op['u'], 'idx': rng.choice([0, 0, 1, 2, 3]), 'kind': kind}
            if what < 0.55:
                f.update({'do': 'ext:sql-error', 'msg': rng.choice(['disk I/O error', 'database or disk is full',
                                                                    'database is locked'])})
                if rng.random() < 0.4:
                    f.update(rng.choice([{'exc': 'IntegrityError', 'msg': 'constraint failed'},
                                         {'exc': 'DatabaseError', 'msg': 'database disk image is malformed'},
                                         {'exc': 'InterfaceError', 'msg': 'bad parameter or other API misuse'},
                                         {'exc': 'InternalError', 'msg': 'something is wrong'},
                                         {'exc': 'MemoryError', 'msg': 'out of memory'}]))
            elif what < 0.8 and not shared:
                f['do'] = 'crash'
            else:
                f.update({'do': 'stall', 'ns': rng.choice([10 ** 7, 10 ** 9, 4 * 10 ** 9, 20 * 10 ** 9])})
            faults.append(f)
    return plan


def run(env, plan):
    sim = env.start()
    sim.one_process = bool(plan['shared'])
    sim.on_crash.append(sqlseam.crashed)
    setup_db()
    s0 = open_sql()
    for k, v in plan['before']:
        s0.set(k, v)
    hist = {k: [] for k in plan['owners']}
    initial = dict(map(tuple, plan['before']))
    bad = []
    common = open_sql() if plan['shared'] else None
    n_open = [0]
    # longer than someone waits for a lock
    stalls = sum(f['ns'] for f in plan['faults'] if f['do'] == 'stall') > 4.5e9

    def one(s, t, op):
        o, k, u = op['o'], op.get('k'), op['u']
        inv = sim.event('call', u, o, k)
        if n_open[0]:
            sim.probe('overlap')
        n_open[0] += 1
        rec = None
        v = op.get('v')
        kind = {'set': 'w', 'setitem': 'w', 'update': 'u', 'delete': 'd'}.get(o)
        try:
            if o == 'set':
                s.set(k, v)
                rec = ('w', v)
            elif o == 'setitem':
                s[k] = v
                rec = ('w', v)
            elif o == 'update':
                s.update(k, v)
                rec = ('u', v)
            elif o == 'delete':
                rec = ('d', s.delete(k))
            elif o == 'bad':
                # can't be stored, so nothing is to happen
                try:
                    s.set(k, bad_value(op['what']))
                except Exception as err:
                    sim.event('refused', u, type(err).__name__)
                else:
                    bad.append(Violation('stored', '%s was stored' % op))
                return
            elif o == 'get':
                res = s.get(k)
                rec = ('r', lin.ABSENT if res is None else res)
            elif o == 'in':
                rec = ('p', k in s)
            elif o in ('call', 'iter'):
                rows = list(s()) if o == 'call' else list(s)
                got = {}
                for r in rows:
                    if r.owner in got or r.owner not in hist:
                        bad.append(Violation('rows', 'row of %r, %d of them, in %s' % (r.owner, len(rows), op)))
                    got[r.owner] = r.data
                ret = sim.event('ret', u, sorted(got.items()))
                for k2 in plan['owners']:
                    hist[k2].append((inv, ret, 'r', got.get(k2, lin.ABSENT), u))
                return
            elif o == 'flush':
                s.flush()
                sim.event('ret', u)
                return
            ret = sim.event('ret', u, rec)
            hist[k].append((inv, ret) + rec + (u,))
        except (SimCrash, SimStuck):
            if kind:
                hist[k].append((inv, None, 'U' if kind == 'u' else 'W', v if v is not None else lin.ABSENT, u))
            raise
        except (sqlalchemy.exc.DBAPIError, MemoryError) as err:
            ret = sim.event('failed', u)
            text = str(err)
            if 'injected' not in text and 'locked' not in text:
                raise
            if 'injected' not in text and not stalls:
                bad.append(Violation('locked', 'operation %s waited too long for a lock nobody keeps' % op))
            sim.probe('failed-op')
            if kind:
                hist[k].append((inv, ret, 'U' if kind == 'u' else 'W', v if v is not None else lin.ABSENT, u))
        finally:
            n_open[0] -= 1

    done = {t: 0 for t in plan['tasks']}

    def patiently_open():
        while True:
            try:
                return open_sql()
            except sqlalchemy.exc.OperationalError as err:
                if 'locked' not in str(err) or not stalls:
                    raise

    def proc(name):
        def body(task):
            s = common or patiently_open()
            while done[name] < len(plan['tasks'][name]):
                op = plan['tasks'][name][done[name]]
                done[name] += 1
                task.begin(op['u'])
                try:
                    one(s, task, op)
                finally:
                    task.end()

        return body

    for name in plan['tasks']:
        sim.spawn(name, proc(name), restart=proc(name))
    sim.run()
    if bad:
        raise bad[0]
    if sim.stuck:
        return
    # no more faults: everything has to work again, for those that were there and for someone new
    for s in [x for x in (common,) if x] + [s0, open_sql()]:
        for k in plan['owners']:
            inv = sim.event('final', k)
            res = s.get(k)
            hist[k].append((inv, sim.event('ret'), 'r', lin.ABSENT if res is None else res, 'final'))
            p = k in s
            hist[k].append((sim.event('x'), sim.event('ret'), 'p', p, 'final'))
    for k in plan['owners']:
        s0.set(k, 'last')
        if s0.get(k) != 'last' or open_sql().get(k) != 'last':
            raise Violation('usable', 'after what went wrong set(%r) no longer works' % k)
    for k, ops in hist.items():
        try:
            ok = lin.check([o[:4] for o in ops], initial.get(k, lin.ABSENT))
        except lin.TooHard:
            sim.probe('too-hard')
            continue
        if not ok:
            raise Violation('not-atomic', 'no order of the operations explains %.900s (first there was %r)' % (
                sorted(ops, key=lambda o: o[0]), initial.get(k)))
    return {'nontrivial': bool(sim.probes.get('overlap') or sim.fired)}
