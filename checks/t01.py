"""
T01: ID tokens are accepted from when they are made until they expire, by the clock of the one who verifies.
"""
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_later
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world
from checks.pcommon import legs_of
from checks.tcommon import ZONES
from checks.tcommon import gen_start

PROPERTY = 'T01'
RUNS = {'quick': 5000, 'thorough': 150000}
RULE = ('1-3 providers and 1-3 clients whose clocks differ by up to hours and are set now and then, in random time zones, '
        'often near where daylight saving time starts or ends, 1-4 sessions with random life times, allowed skew and storage times, '
        'messages that arrive within a second of when their tokens expire; ID tokens say when they were made and expire, are accepted as '
        'long as they are valid by the clock of the one who verifies and not longer; non-trivial: something was '
        'verified; distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, clocks, randomness incl. ECDSA nonces, JWKS end points (simulated)']
ASSUMPTIONS = ['an ID token with iat in the future is not rejected', 'clocks do not move while a message is verified']
PROBES = ('accepted', 'rejected-time')
SHRINK = ('net', 'clock', 'sessions')
SEC = 10 ** 9


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    gen_start(rng, plan)
    plan['tz'] = rng.choice(ZONES)
    for n in plan['ops'] + plan['rps']:
        n['skew_ns'] = rng.choice([0, rng.randrange(-5, 6), rng.randrange(-400, 401), rng.randrange(-20000, 20001)]) * SEC \
            + rng.randrange(SEC)
    n = rng.choice([1, 1, 2, 3, 4])
    plan['sessions'] = [gen_session(rng, plan, i, careful=0.6) for i in range(n)]
    for s in plan['sessions']:
        s['at'] = rng.randrange(20 * SEC)
        s['alg'] = rng.choice(['ES256', 'ES256', 'HS256', 'RS256'])
        if rng.random() < 0.7 and 'skew' not in s['kw']:
            s['kw'].append('skew')
        s['lifetime'] = rng.choice([0, 0, 1, 5, 60, 300, 3600, 86400])
        s['exp'] = rng.choice([-10, 0, 1, 60, 3600, 86400])
        if rng.random() < 0.3:
            s['tok'] = {'again': rng.choice([1, 60, 3600, 86400, -60])}
        if rng.random() < 0.6:
            s['later'] = [gen_later(rng, s['alg']) for _ in range(rng.choice([1, 1, 2]))]
            for c in s['later']:
                if c['what'] == 'back':
                    c['what'] = rng.choice(['end', 'refresh', 'check'])
                    c['kw'] = [k for k in ('iss', 'client_id', 'skew') if rng.random() < 0.8]
                if c.get('alg') == 'HS256':
                    c['alg'] = 'ES256'
    gen_net(rng, plan, rng.choice([0, 0, 1, 2]))
    for s in plan['sessions']:
        for leg in legs_of(s):
            if leg in ('authz_req', 'token_req') or rng.random() < 0.4:
                continue
            if leg in ('authz_resp', 'token_resp'):
                skew = s['skew'] if 'skew' in s['kw'] else 0
                storage = s['storage'] if 'nonce_storage_time' in s['kw'] else 14400
            else:
                c = [c for c in s['later'] if c['what'] == leg][0]
                skew = c.get('skew', 0) if 'skew' in c['kw'] else 0
                storage = 14400
            what = rng.choice(['exp', 'exp', 'iat'])
            plan['net'].append({'s': s['id'], 'leg': leg, 'n': 0, 'do': 'hold', 'what': what, 'add': rng.choice([
                skew, skew, -skew]) + rng.choice([-1, 0, 1, 1, 2]) + (storage if what == 'iat' else 0),
                                'ns': rng.randrange(SEC)})
    if rng.random() < 0.4:
        plan['clock'] = [{'at': rng.randrange(1000 * SEC), 'node': rng.randrange(6), 'ns': rng.choice([-1, 1]) * rng.choice([
            1, 60, 3600, 50000]) * SEC} for _ in range(rng.choice([1, 1, 2]))]
    return plan


def run(env, plan):
    return finish(World(env, plan, ('time', 'time-ok')), liveness=False)
