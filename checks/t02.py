"""
T02: client assertions and logout tokens are accepted within the time they are for, by the clock of the one who verifies.
"""
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_assert
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world
from checks.tcommon import ZONES
from checks.tcommon import gen_start

PROPERTY = 'T02'
RUNS = {'quick': 5000, 'thorough': 150000}
RULE = ('1-3 providers and 1-3 clients whose clocks differ by up to hours and are set now and then, in random time zones, '
        'often near where daylight saving time starts or ends, 1-4 sessions with client assertions and logout tokens with random exp, '
        'nbf, iat, allowed skew, that arrive within a second of when that matters; they are accepted exactly as long as they '
        'are valid by the clock of the one who verifies; non-trivial: something was verified; distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, clocks, randomness incl. ECDSA nonces, JWKS end points (simulated)']
ASSUMPTIONS = ['logout tokens do not expire', 'clocks do not move while a message is verified']
PROBES = ('accepted', 'rejected-time')
SHRINK = ('net', 'clock', 'sessions')
SEC = 10 ** 9


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    gen_start(rng, plan)
    plan['tz'] = rng.choice(ZONES)
    for n in plan['ops'] + plan['rps']:
        n['skew_ns'] = rng.choice([0, rng.randrange(-5, 6), rng.randrange(-5, 6), rng.randrange(-400, 401),
                                   rng.randrange(-20000, 20001)]) * SEC + rng.randrange(SEC)
    n = rng.choice([1, 1, 2, 3, 4])
    plan['sessions'] = [gen_session(rng, plan, i, careful=0.6) for i in range(n)]
    for s in plan['sessions']:
        s['at'] = rng.randrange(20 * SEC)
        s['alg'] = rng.choice(['ES256', 'HS256'])
        s['flow'] = rng.choice(['code', 'code', 'id_token'])
        s['lifetime'] = 10 ** 6
        if 'nonce_storage_time' in s['kw']:
            s['storage'] = 10 ** 6
        if 'code' in s['flow']:
            s['assert'] = gen_assert(rng)
            s['assert']['exp'] = rng.choice([-5, 0, 1, 30, 600, 86400])
            s['assert']['iat'] = rng.choice([None, 0, 0, 1, -10, 10, 300])
            s['assert']['nbf'] = rng.choice([None, 0, 1, -10, 10, 300])
            skew = s['assert']['skew'] or 0
            if rng.random() < 0.8:
                what = rng.choice(['exp', 'exp', 'nbf', 'iat'])
                plan.setdefault('net', []).append({
                    's': s['id'], 'leg': 'token_req', 'n': 0, 'do': 'hold', 'what': what, 'ns': rng.randrange(SEC),
                    'add': rng.choice([skew, skew, -skew] if what == 'exp' else [-skew, -skew, skew]) + rng.choice([
                        -1, 0, 0, 1, 1, 2])})
        s['later'] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = {'what': 'back', 'after': rng.randrange(SEC), 'alg': rng.choice(['ES256', 'ES256', 'HS256']), 'ids': 'sub',
                 'kw': [k for k in ('aud', 'iss', 'skew') if rng.random() < 0.8], 'skew': rng.choice([0, 1, 10, 300]),
                 'iat': rng.choice([0, 0, 1, 5, 300, 301, -1000])}
            s['later'].append(c)
        for c in s['later'][:1]:
            if rng.random() < 0.7:
                skew = c['skew'] if 'skew' in c['kw'] else 0
                plan.setdefault('net', []).append({
                    's': s['id'], 'leg': 'back', 'n': 0, 'do': 'hold', 'what': 'iat', 'ns': rng.randrange(SEC),
                    'add': -skew + rng.choice([-1, 0, 0, 1])})
    gen_net(rng, plan, rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.4:
        plan['clock'] = [{'at': rng.randrange(1000 * SEC), 'node': rng.randrange(6), 'ns': rng.choice([-1, 1]) * rng.choice([
            1, 60, 3600, 50000]) * SEC} for _ in range(rng.choice([1, 1, 2]))]
    return plan


def run(env, plan):
    return finish(World(env, plan, ('time', 'time-ok')), liveness=False)
