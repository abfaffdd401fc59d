"""
T04: a time stamp in a message about a verified identity is the same instant for everyone.
"""
import calendar
import datetime
import heapq
import json
import os
import time

from checks.p05 import enc_key
from checks.pcommon import fixture
from checks.pcommon import key_of
from checks.tcommon import MOMENTS
from checks.tcommon import SEC
from checks.tcommon import ZONES
from checks.tcommon import gen_start
from sim.core import Violation

PROPERTY = 'T04'
RUNS = {'quick': 15000, 'thorough': 400000}
RULE = ('2-4 parties, each in a time zone of its own with a clock that is set now and then, make, pass on (as JSON, signed '
        'or encrypted JWT), copy and read messages about identity verification with 1-5 points in time, many of them at '
        'changes of daylight saving time, years, days; the instant is the same at every party, time stamps of now are '
        'the time it is, dates are the local day; non-trivial: time stamps were passed on; distinct by event log')
REAL = ['oidcmsg.oidc.identity_assurance', 'oidcmsg messages', 'cryptojwt']
STUBS = ['clock, time zones (rules instead of names), network, randomness incl. ECDSA nonces (simulated)']
ASSUMPTIONS = ['whole seconds', 'an explicit time of 0 means now', 'offsets from UTC of whole minutes']
PROBES = ('passed', 'now', 'dst')
SHRINK = ('msgs', 'stamps', 'clock')


def gen_time(rng):
    if rng.random() < 0.6:
        return rng.choice(MOMENTS) + rng.choice([-1, 1]) * rng.choice([0, 1, 1800, 3599, 3600, 7200, 20000])
    return rng.randrange(1, 4 * 10 ** 9)


def gen(rng, tier, index):
    plan = {'id_seed': rng.randrange(1 << 30)}
    gen_start(rng, plan)
    n = rng.choice([2, 2, 3, 4])
    plan['nodes'] = [{'tz': rng.choice(ZONES), 'skew_ns': rng.choice([0, rng.randrange(-4000, 4000)]) * SEC} for _ in range(n)]
    plan['msgs'] = []
    for i in range(rng.choice([1, 2, 3])):
        plan['msgs'].append({
            'id': i, 'kind': rng.choice(['qes', 'bill', 'doc', 'iddoc', 'elem', 'elem', 'claims', 'claims']),
            'at': rng.randrange(100) * SEC, 'node': rng.randrange(n), 't': [gen_time(rng) for _ in range(5)],
            'text': [rng.choice([0, 0, 1]) for _ in range(5)],
            'hops': [{'node': rng.randrange(n), 'as': rng.choice('jjwwue'), 'ns': rng.choice([SEC, 4000 * SEC, 10 ** 7 * SEC]),
                      'alg': rng.choice(['ES256', 'HS256', 'none']), 'copy': rng.randrange(2)}
                     for _ in range(rng.choice([1, 2, 3, 4]))]})
    plan['stamps'] = [{'at': rng.randrange(100) * SEC, 'node': rng.randrange(n), 'to': rng.randrange(n), 't': gen_time(rng),
                       'as': rng.choice(['int', 'float', 'local', 'utc', 'aware', 'now', 'now', 'nowser']),
                       'off': rng.choice([-660, -210, 0, 60, 330, 765]),
                       'lag': rng.choice([0, 0, 0, 999, 5000, 100000]) * 10 ** 6} for _ in range(rng.choice([0, 2, 4]))]
    if rng.random() < 0.4:
        plan['clock'] = [{'at': rng.randrange(100) * SEC, 'node': rng.randrange(n), 'ns': rng.choice([-1, 1]) * rng.choice([
            3600, 15000000]) * SEC} for _ in range(rng.choice([1, 2]))]
    return plan


def instant(v):
    """Seconds, independently"""
    if isinstance(v, (int, float)):
        return v
    if not isinstance(v, str) or len(v) != 24 or v[19] not in '+-':
        return None
    off = (int(v[20:22]) * 60 + int(v[22:24])) * 60
    return calendar.timegm(time.strptime(v[:19], '%Y-%m-%dT%H:%M:%S')) - (off if v[19] == '+' else -off)


def stamp(t, off):
    """Someone else's"""
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t, minutes=off)
    return '%s%s%02d%02d' % (d.strftime('%Y-%m-%dT%H:%M:%S'), '-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)


def build(m):
    """:return: arguments and where the points in time are"""
    t = [stamp(x, 60 * i - 90) if m['text'][i] else x for i, x in enumerate(m['t'])]
    qes = {'type': 'qes', 'issuer': 'å', 'serial_number': '1', 'created_at': t[0]}
    doc = {'type': 'idcard', 'number': '1', 'issuer': {'name': 'a', 'country': 'b'}, 'date_of_issuance': t[1],
           'date_of_expiry': t[2]}
    iddoc = {'type': 'id_document', 'method': 'pipp', 'verifier': {'organization': 'o', 'txn': 't'}, 'time': t[3],
             'document': doc}
    bill = {'type': 'utility_bill', 'provider': {'name': 'x', 'street_address': 'y'}, 'date': t[4]}
    elem = {'trust_framework': 'x', 'time': t[0], 'evidence': [iddoc] if m['id'] % 2 else [bill, dict(qes, created_at=t[1])]}
    claims = {'verification': elem, 'claims': {'given_name': 'x'}}
    in_elem = [(('time',), 0)] + ([(('evidence', 0, 'time'), 3), (('evidence', 0, 'document', 'date_of_issuance'), 1),
                                   (('evidence', 0, 'document', 'date_of_expiry'), 2)] if m['id'] % 2 else
                                  [(('evidence', 0, 'date'), 4), (('evidence', 1, 'created_at'), 1)])
    return {
        'qes': ('QES', qes, [(('created_at',), 0)]),
        'doc': ('Document', doc, [(('date_of_issuance',), 1), (('date_of_expiry',), 2)]),
        'iddoc': ('IdDocument', iddoc, [(('time',), 3), (('document', 'date_of_issuance'), 1), (('document', 'date_of_expiry'), 2)]),
        'bill': ('UtilityBill', bill, [(('date',), 4)]),
        'elem': ('VerificationElement', elem, in_elem),
        'claims': ('VerifiedClaims', claims, [(('verification',) + p, i) for p, i in in_elem]),
    }[m['kind']]


def run(env, plan):
    from cryptojwt.key_jar import KeyJar
    from oidcmsg.oidc import identity_assurance as ida
    sim = env.start(fs=False)
    nodes = [dict(x) for x in plan['nodes']]
    queue, n = [], [0]

    def at(ns, fn):
        n[0] += 1
        heapq.heappush(queue, (ns, n[0], fn))

    def on(i):
        node = nodes[i]
        if os.environ.get('TZ') != node['tz']:
            os.environ['TZ'] = node['tz']
            time.tzset()
        sim.node_skew_ns = node['skew_ns']
        return (sim.now_ns + sim.node_skew_ns) // SEC

    def local_day(t):
        x = time.localtime(t)
        return '%04d-%02d-%02d' % x[:3]

    def bad(what, got, want):
        raise Violation('time-stamp', '%s: %r, should be %r' % (what, got, want))

    def see(m, what, msg):
        """Are the points in time the same in there?"""
        _, _, where = build(m)
        for form in ('members', 'dict'):
            for path, i in where:
                v = msg if form == 'members' else msg.to_dict()
                for p in path:
                    v = v[p]
                if instant(v) != m['t'][i]:
                    bad('%s %s of %d %s' % (form, '.'.join(str(p) for p in path), m['id'], what), v, m['t'][i])
                if isinstance(v, str):
                    got = ida.time_stamp_deser(v)
                    if got != m['t'][i]:
                        bad('%s read' % v, got, m['t'][i])
        sim.event('see', m['id'], what)

    def make(m):
        on(m['node'])
        name, args, _ = build(m)
        msg = getattr(ida, name)(**args)
        see(m, 'made', msg)
        send(m, 0, msg)

    def send(m, i, msg):
        if i == len(m['hops']):
            return
        h = m['hops'][i]
        if h['copy']:
            msg = msg.copy()
        form = h['as']
        if form == 'u' and m['kind'] != 'qes':
            form = 'j'  # others have members that can't
        if form == 'j':
            wire = msg.to_json()
            json.loads(wire)
        elif form == 'u':
            wire = msg.to_urlencoded()
        elif form == 'w':
            spec = {'ES256': ('EC', 14), 'HS256': ('oct', 7), 'none': None}[h['alg']]
            wire = msg.to_jwt(key=[key_of(spec)] if spec else None, algorithm=h['alg'])
        else:
            wire = msg.to_jwe([enc_key()], enc='A128GCM', alg='RSA-OAEP')
        sim.event('send', m['id'], i, form)
        at(sim.sim_elapsed_ns + h['ns'], lambda: receive(m, i, form, wire))

    def receive(m, i, form, wire):
        on(m['hops'][i]['node'])
        cls = getattr(ida, build(m)[0])
        if form == 'j':
            msg = cls().from_json(wire)
        elif form == 'u':
            msg = cls().from_urlencoded(wire)
        elif form == 'w':
            kj = KeyJar()
            for owner in ('', 'å'):
                kj.import_jwks({'keys': [fixture(('EC', 14)), fixture(('oct', 7))]}, owner)
            msg = cls().from_jwt(wire, kj)
        else:
            msg = cls().from_jwe(wire, [enc_key()])
        if not msg.verify():
            bad('verification of %d' % m['id'], False, True)
        sim.probe('passed')
        see(m, 'as %s at hop %d' % (form, i), msg)
        send(m, i + 1, msg)

    def make_stamp(s):
        now = on(s['node'])
        t, how = s['t'], s['as']
        if how in ('now', 'nowser'):
            sim.read_lag_ns = s['lag']
            got = ida.to_iso8601_2004() if how == 'now' else ida.to_iso8601_2004_time()
            sim.read_lag_ns = 0
            end = (sim.now_ns + sim.node_skew_ns) // SEC
            sim.probe('now')
            if instant(got) is None or not now <= instant(got) <= end:
                bad('time stamp of now', got, now)
            t = instant(got)
            day = ida.to_iso8601_2004_date()
            if day != local_day(end):
                bad('date of now', day, local_day(end))
        else:
            utc = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
            v = {'int': t, 'float': float(t), 'local': datetime.datetime.fromtimestamp(t), 'utc': utc,
                 'aware': utc.astimezone(datetime.timezone(datetime.timedelta(minutes=s['off'])))}[how]
            got = ida.to_iso8601_2004_time(v)
            if instant(got) != t:
                bad('time stamp of %r' % (v,), got, t)
            day = ida.to_iso8601_2004_date(v)
            if day != local_day(t):
                bad('date of %r' % (v,), day, local_day(t))
            if how in ('int', 'float'):
                for x in (ida.time_stamp_ser(v), ida.time_stamp_ser(str(t)), ida.time_stamp_ser(got)):
                    if instant(x) != t:
                        bad('time stamp of %r' % (v,), x, t)
                day = [ida.date_ser(v), ida.date_ser(str(t))]
                if day != [local_day(t)] * 2:
                    bad('date of %r' % (v,), day, local_day(t))
                back = ida.date_deser(day[0])
                if local_day(back) != day[0] or not 0 <= t - back <= 90000:
                    bad('date %s read' % day[0], back, 'local midnight before %d' % t)
        if time.localtime(t).tm_isdst != time.localtime(now).tm_isdst:
            sim.probe('dst')
        sim.event('stamp', got)

        def read():
            on(s['to'])
            back = ida.from_iso8601_2004_time(got)
            if back != t:
                bad('%s read' % got, back, t)
            back = ida.time_stamp_deser(got)
            if back != t:
                bad('%s read' % got, back, t)
        at(sim.sim_elapsed_ns + 5 * SEC, read)

    for m in plan['msgs']:
        at(m['at'], lambda m=m: make(m))
    for s in plan['stamps']:
        at(s['at'], lambda s=s: make_stamp(s))

    def step(c):
        nodes[c['node'] % len(nodes)]['skew_ns'] += c['ns']
        sim.fire('clock-step')
    for c in plan.get('clock', []):
        at(c['at'], lambda c=c: step(c))
    while queue:
        ns, _, fn = heapq.heappop(queue)
        if ns > sim.sim_elapsed_ns:
            sim.advance(ns - sim.sim_elapsed_ns)
        fn()
    return {'nontrivial': sim.probes.get('passed', 0) + sim.probes.get('now', 0) > 0}
