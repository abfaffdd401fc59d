"""
P04: keys can be rotated at any time and the place they are published at can be down.
"""
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_later
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world

PROPERTY = 'P04'
RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('1-3 providers that change their keys up to 5 times, before, when or after the new ones are published, 1-3 '
        'clients that get them over HTTP while the end points are down, slow, broken or stale for a while, 2-6 '
        'sessions in between, messages lost, repeated, delayed; tokens signed with a key that is published and can be '
        'fetched, or is known, are accepted, those signed with any other key are not; non-trivial: something was '
        'verified; distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt key jar']
STUBS = ['network, HTTP, clocks, randomness incl. ECDSA nonces (simulated)']
ASSUMPTIONS = ['a provider does not use a kid for two keys']
PROBES = ('accepted', 'rejected-keys')
SHRINK = ('rotations', 'endpoint', 'net', 'clock', 'sessions')
SEC = 10 ** 9


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    for n in plan['ops'] + plan['rps']:
        n['skew_ns'] = n['skew_ns'] // 20
    horizon = rng.choice([60, 600, 4000])
    n = rng.choice([2, 3, 3, 4, 6])
    plan['sessions'] = [gen_session(rng, plan, i, careful=0.6, at=rng.randrange(horizon * SEC)) for i in range(n)]
    one = rng.random() < 0.6
    for s in plan['sessions']:
        s['alg'] = rng.choice(['ES256', 'ES256', 'RS256'])
        s['lifetime'] = 86400
        s['skew'] = 300
        if 'nonce_storage_time' in s['kw']:
            s['storage'] = 10 ** 6
        if 'skew' not in s['kw']:
            s['kw'].append('skew')
        if rng.random() < 0.4:
            s['later'] = [gen_later(rng, s['alg']) for _ in range(rng.choice([1, 2]))]
            for c in s['later']:
                c['after'] = rng.randrange(horizon * SEC)
                c['skew'] = 300
                c['kw'] = [k for k in c['kw'] if k != 'skew'] + ['skew']
                if c.get('alg') == 'HS256':
                    c['alg'] = s['alg']
        if one:
            s['op'] = 0
            s['rp'] = 0
    free = [['EC', k] for k in (9, 10, 11, 12, 13, 14)] + [['RSA', k] for k in (5, 6)]
    used = [r['key'] for r in plan['rps']]
    free = [k for k in free if k not in used]
    for op in plan['ops'][2:]:
        used.append(['EC', 6])
    rng.shuffle(free)
    plan['rotations'] = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        if not free:
            break
        lag = rng.choice([0, 0, 0, 1, -1]) * rng.choice([SEC // 5, 5 * SEC, 60 * SEC, 600 * SEC])
        plan['rotations'].append({'op': 0 if one else rng.randrange(3), 'at': rng.randrange(horizon * SEC),
                                  'key': free.pop(), 'drop': rng.randrange(2), 'lag': lag})
        if rng.random() < 0.15:
            plan['rotations'][-1]['label'] = rng.choice([SEC // 5, 20 * SEC, 300 * SEC])
    plan['rotations'].sort(key=lambda r: r['at'])
    plan['endpoint'] = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        t = rng.randrange(horizon * SEC) - rng.choice([0, 100 * SEC])
        plan['endpoint'].append({'op': 0 if one else rng.randrange(3), 'from': t,
                                 'to': t + rng.choice([SEC, 20 * SEC, 400 * SEC]),
                                 'what': rng.choice(['down', 'timeout', '500', 'html', 'empty', 'stale']),
                                 'age': rng.choice([1, 1, 2])})
    if rng.random() < 0.15:
        # one is withdrawn but still used to sign with
        a, b = plan['sessions'][:2]
        a.update({'op': 0, 'rp': 0, 'at': rng.randrange(5 * SEC)})
        b.update({'op': 0, 'rp': 0, 'at': (200 + rng.randrange(400)) * SEC})
        a['alg'] = b['alg'] = 'ES256'
        plan['rotations'] = [{'op': 0, 'at': (10 + rng.randrange(180)) * SEC, 'key': ['EC', 13], 'drop': 1,
                              'lag': -rng.choice([300, 600, 900]) * SEC}]
        plan['endpoint'] = plan['endpoint'][:rng.randrange(2)]
    gen_net(rng, plan, rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.2:
        plan['clock'] = [{'at': rng.randrange(horizon * SEC), 'node': rng.randrange(6),
                          'ns': rng.choice([-1, 1]) * rng.choice([5, 100, 290]) * SEC}]
    return plan


def run(env, plan):
    return finish(World(env, plan, ('keys', 'auth')), liveness=True)
