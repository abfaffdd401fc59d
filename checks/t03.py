"""
T03: the functions about time agree with the clock and with each other, anywhere and at any time.
"""
import calendar
import datetime
import heapq
import os
import time

from checks.tcommon import SEC
from checks.tcommon import ZONES
from checks.tcommon import gen_start
from sim.core import Violation

PROPERTY = 'T03'
RUNS = {'quick': 40000, 'thorough': 1000000}
RULE = ('2-4 parties, each in a time zone of its own with a skewed clock that is set now and then, start near where '
        'daylight saving time starts or ends, years or leap days begin, and make points in time (now, in a while, a while ago, shifted, '
        'with a duration added) as text, seconds or structures, which get to others late and are compared there with '
        'now and with each other, while the process is held up between readings of its clock; all results are those of plain '
        'arithmetic with seconds; non-trivial: there were comparisons; distinct by event log')
REAL = ['oidcmsg.time_util']
STUBS = ['clock, time zones (rules instead of names)']
ASSUMPTIONS = ['durations of 1 to 28 days, in whole seconds, added to a time in the first 28 days of a month']
PROBES = ('compared', 'boundary')
SHRINK = ('points', 'clock')


def gen_delta(rng):
    d = {}
    for k, v in (('days', 400), ('seconds', 100000), ('minutes', 3000), ('hours', 60), ('weeks', 10),
                 ('milliseconds', 100000), ('microseconds', 10 ** 7)):
        if rng.random() < 0.3:
            d[k] = rng.choice([0, 1, rng.randrange(v)]) * rng.choice([1, 1, 1, -1])
            if k in ('milliseconds', 'microseconds'):
                d[k] = d[k] // 1000 * 1000
    return d


def gen_duration(rng):
    res = 'P'
    if rng.random() < 0.3:
        res += '%dY' % rng.randrange(0, 5)
    if rng.random() < 0.4:
        res += '%dM' % rng.randrange(0, 30)
    res += '%dD' % rng.randrange(1, 29)
    t = ''
    for c, n in (('H', 100), ('M', 200), ('S', 200)):
        if rng.random() < 0.4:
            t += '%d%s' % (rng.randrange(n), c)
    return res + ('T' + t if t else '')


def gen(rng, tier, index):
    plan = {}
    gen_start(rng, plan)
    n = rng.choice([2, 2, 3, 4])
    plan['nodes'] = [{'tz': rng.choice(ZONES), 'skew_ns': rng.choice([0, rng.randrange(-5, 6), rng.randrange(-4000, 4000)]) * SEC +
                      rng.randrange(1000) * 10 ** 6} for _ in range(n)]
    horizon = rng.choice([10, 4000, 10 ** 5])
    plan['points'] = []
    for i in range(rng.choice([2, 4, 6])):
        p = {'id': i, 'node': rng.randrange(n), 'at': rng.randrange(horizon * 1000) * 10 ** 6,
             'how': rng.choice(['now', 'while', 'ago', 'epoch', 'epoch', 'shift', 'instant', 'duration', 'str', 'sans']),
             'delta': gen_delta(rng), 'form': rng.choice(['int', 'str', 'frac', 'struct']), 'uses': []}
        if p['how'] == 'duration':
            p['duration'] = gen_duration(rng)
        if rng.random() < 0.15:
            p['lag'] = rng.choice([1, 300, 999, 1000, 3000, 60000]) * 10 ** 6
        for _ in range(rng.choice([1, 2, 3])):
            u = {'node': rng.randrange(n), 'form': rng.choice(['int', 'str', 'frac', 'struct']),
                 'fn': rng.choice(['before', 'after', 'valid', 'not_before', 'not_on_or_after', 'later'])}
            if rng.random() < 0.6:
                u['about'] = rng.choice([-1, 0, 0, 1])  # when its clock says so
                u['ms'] = rng.choice([0, 1, 500, 999])
            else:
                u['after'] = rng.randrange(horizon * 1000) * 10 ** 6
            if rng.random() < 0.15:
                u['lag'] = rng.choice([1, 300, 999, 1000, 3000]) * 10 ** 6
            p['uses'].append(u)
        plan['points'].append(p)
    if rng.random() < 0.4:
        plan['clock'] = [{'at': rng.randrange(horizon) * SEC, 'node': rng.randrange(n),
                          'ns': rng.choice([-1, 1]) * rng.choice([1, 60, 3600, 90000]) * SEC}
                         for _ in range(rng.choice([1, 2]))]
    return plan


def total(delta):
    """In milliseconds"""
    return (delta.get('days', 0) * 86400 + delta.get('weeks', 0) * 7 * 86400 + delta.get('hours', 0) * 3600 + delta.get(
        'minutes', 0) * 60 + delta.get('seconds', 0)) * 1000 + delta.get('milliseconds', 0) + delta.get('microseconds', 0) // 1000


def add(t, duration):
    """By the calendar"""
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    n = {}
    part, num = 'date', ''
    for c in duration[1:]:
        if c == 'T':
            part = 'time'
        elif c.isdigit():
            num += c
        else:
            n[part + c] = int(num)
            num = ''
    month = d.month - 1 + n.get('dateM', 0)
    year = d.year + n.get('dateY', 0) + month // 12
    res = datetime.datetime(year, month % 12 + 1, d.day, d.hour, d.minute, d.second)
    res += datetime.timedelta(days=n.get('dateD', 0), hours=n.get('timeH', 0), minutes=n.get('timeM', 0),
                              seconds=n.get('timeS', 0))
    return (res - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)


def text(t, frac=''):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    return '%04d-%02d-%02dT%02d:%02d:%02d%sZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second, frac)


def run(env, plan):
    from oidcmsg import time_util as tu
    sim = env.start(fs=False)
    nodes = [dict(x) for x in plan['nodes']]
    queue, n, done = [], [0], []

    def at(ns, fn):
        n[0] += 1
        heapq.heappush(queue, (ns, n[0], fn))

    def on(i, lag=0):
        node = nodes[i]
        if os.environ.get('TZ') != node['tz']:
            os.environ['TZ'] = node['tz']
            time.tzset()
        sim.node_skew_ns = node['skew_ns']
        sim.read_lag_ns = lag
        if lag:
            sim.fire('held-up')
        return sim.now_ns + sim.node_skew_ns

    def over():
        """:return: what the clock says now"""
        sim.read_lag_ns = 0
        return sim.now_ns + sim.node_skew_ns

    def bad(what, got, lo, hi):
        raise Violation('time', '%s gave %r, should be %s' % (what, got, lo if lo == hi else '%s to %s' % (lo, hi)))

    def secs(v, what):
        """Any form to seconds"""
        if isinstance(v, int):
            return v
        if isinstance(v, str):
            return calendar.timegm(time.strptime(v, '%Y-%m-%dT%H:%M:%SZ'))
        if isinstance(v, datetime.datetime):
            if v.tzinfo is not None:
                return int(v.timestamp())
            return (v - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)
        if isinstance(v, time.struct_time):
            return calendar.timegm(v)
        raise Violation('time', '%s gave %r' % (what, v))

    def form(t, how):
        if how == 'int':
            return t
        if how == 'str':
            return text(t)
        if how == 'frac':
            return text(t, '.' + ('%d' % (t * 7919 % 10 ** 6)))
        return tu.str_to_time(text(t))

    def make(p):
        now = on(p['node'], p.get('lag', 0))
        what, how = p['how'], p['how']
        ms = total(p['delta'])
        if how == 'now':
            got, off = [tu.utc_time_sans_frac()], 0
        elif how == 'sans':
            got, off = [tu.time_sans_frac()], 0
        elif how == 'instant':
            got, off = [tu.instant()], 0
        elif how == 'while':
            got, off = [tu.in_a_while(**p['delta']), tu.time_in_a_while(**p['delta'])], ms
        elif how == 'ago':
            got, off = [tu.a_while_ago(**p['delta']), tu.time_a_while_ago(**p['delta'])], -ms
        elif how == 'epoch':
            got, off = [tu.epoch_in_a_while(**p['delta'])], ms
        elif how == 'shift':
            s = ms // 1000
            got, off = [tu.shift_time(tu.time_in_a_while(), s), tu.shift_time(tu.time_a_while_ago(), s)], s * 1000
        else:
            # no clock
            got, off = [], None
        end = over()
        if off is not None:
            lo, hi = (now // 10 ** 6 + off) // 1000, (end // 10 ** 6 + off) // 1000
            for g in got:
                t = secs(g, what)
                if not lo <= t <= hi:
                    bad('%s %s at %s' % (what, p['delta'], text(now // SEC)), g, lo, hi)
        else:
            t = now // SEC + ms // 1000
            if how == 'duration':
                if int(text(t)[8:10]) > 28:
                    t -= 4 * 86400
                d = tu.add_duration(tu.str_to_time(text(t)), p['duration'])
                want = add(t, p['duration'])
                if secs(d, what) != want:
                    bad('%s and %s' % (text(t), p['duration']), d, text(want), text(want))
                t = want
            else:
                for f in ('str', 'frac'):
                    v = form(t, f)
                    if secs(tu.str_to_time(v), what) != t:
                        bad('str_to_time(%s)' % v, tu.str_to_time(v), t, t)
        sim.event('made', p['id'], how, t)
        done.append((p, t))
        for u in p['uses']:
            if 'about' in u:
                # clock of the other one
                target = (t + u['about']) * SEC + u['ms'] * 10 ** 6 - nodes[u['node']]['skew_ns']
                delay = max(0, target - sim.now_ns)
                if delay > 10 ** 17:
                    continue
                if delay:
                    sim.probe('boundary')
            else:
                delay = u['after']
            at(sim.sim_elapsed_ns + delay, lambda u=u, t=t, p=p: use(p, t, u))

    def use(p, t, u):
        now = on(u['node'], u.get('lag', 0))
        v = form(t, u['form'])
        sim.probe('compared')
        fn = u['fn']
        if fn == 'later':
            end = over()
            for q, t2 in done:
                w = form(t2, p['form'])
                if (tu.later_than(v, w) is True) != (t >= t2):
                    bad('later_than(%r, %r)' % (v, w), tu.later_than(v, w), t >= t2, t >= t2)
            sim.event('later', p['id'])
            return
        if t <= 0:
            over()
            return
        got = getattr(tu, fn)(v)
        end = over()
        # before: now is before that point
        a, b = now // SEC < t, end // SEC < t
        if fn in ('after', 'not_before'):
            a, b = not a, not b
        if got not in (a, b) or not isinstance(got, bool):
            bad('%s(%r) at %s' % (fn, v, text(now // SEC)), got, a, b)
        sim.event(fn, p['id'], got)

    for p in plan['points']:
        at(p['at'], lambda p=p: make(p))

    def step(c):
        nodes[c['node'] % len(nodes)]['skew_ns'] += c['ns']
        sim.fire('clock-step')
        sim.event('clock', c['node'], c['ns'])
    for c in plan.get('clock', []):
        at(c['at'], lambda c=c: step(c))
    try:
        while queue:
            ns, _, fn = heapq.heappop(queue)
            if ns > sim.sim_elapsed_ns:
                sim.advance(ns - sim.sim_elapsed_ns)
            fn()
    finally:
        sim.read_lag_ns = 0
    return {'nontrivial': sim.probes.get('compared', 0) > 0}
