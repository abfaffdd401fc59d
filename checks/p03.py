"""
P03: what a message says has been verified has been verified by this party, whatever the sender put in it.
"""
from checks.pcommon import TOKEN_LEGS
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_forgery
from checks.pcommon import gen_later
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world
from checks.pcommon import legs_of

PROPERTY = 'P03'
RUNS = {'quick': 7000, 'thorough': 200000}
RULE = ('1-3 providers and 1-3 clients with 1-4 sessions, messages lost, repeated, delayed; on the way parameters with '
        'the names under which verified tokens are kept are added, tokens removed, replaced or forged, request objects '
        'with such members are signed by clients; after a verification that succeeded the verified tokens there are '
        'are those that were sent, properly signed; non-trivial: something was verified; distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, clocks, randomness incl. ECDSA nonces, JWKS end points (simulated)']
ASSUMPTIONS = ['only looked at after verify() returned True']
PROBES = ('accepted', 'rejected-auth')
SHRINK = ('attacks', 'net', 'sessions')

NAMES = ['__verified_id_token', '__verified_id_token_hint', '__verified_request', '__verified_logout_token',
         'verified_id_token_hint']


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan, skews=False)
    n = rng.choice([1, 2, 2, 3, 4])
    plan['sessions'] = [gen_session(rng, plan, i, careful=rng.choice([0.3, 0.8])) for i in range(n)]
    for s in plan['sessions']:
        s['at'] = rng.randrange(20 * 10 ** 9)
        s['lifetime'] = rng.choice([300, 3600])
        if 'nonce_storage_time' in s['kw']:
            s['storage'] = 14400
        if rng.random() < 0.6:
            s['later'] = [gen_later(rng, s['alg']) for _ in range(rng.choice([1, 1, 2, 3]))]
            for c in s['later']:
                if c['what'] == 'end' and rng.random() < 0.4:
                    c['nohint'] = rng.choice([1, 2, 2, 2])
        if rng.random() < 0.3:
            s['no_idt'] = 1
        if rng.random() < 0.3:
            s['ro'] = {'alg': rng.choice(['ES256', 'HS256', 'none'])}
            if rng.random() < 0.6:
                s['ro']['inner'] = {rng.choice(NAMES): {'iss': 'https://op.example.com', 'sub': 'admin'}}
        if rng.random() < 0.4:
            # of an earlier session
            s['hint'] = rng.choice([1, 1, 1, 'none', 'plain', 'evil'])
            s['hint_enc'] = int(rng.random() < 0.3)
        if rng.random() < 0.3:
            s['jar'] = [{'cls': rng.choice(['jar', 'par']), 'after': rng.randrange(10 ** 9), 'outer': {},
                         'alg': rng.choice(['ES256', 'HS256', 'none']), 'bare': int(rng.random() < 0.3),
                         'inner': {'__verified_request': {'iss': 'x'}} if rng.random() < 0.2 else {},
                         'enc': int(rng.random() < 0.3)} for _ in range(rng.choice([1, 2]))]
    gen_net(rng, plan, rng.choice([0, 0, 1, 3]))
    plan['attacks'] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = rng.choice(plan['sessions'])
        leg = rng.choice(legs_of(s) + ['jar%d' % i for i in range(len(s.get('jar', [])))])
        claim = TOKEN_LEGS.get(leg)
        if leg == 'token_req':
            continue
        if leg == 'authz_req':
            claim = rng.choice(['request', 'id_token_hint'])
        if leg.startswith('jar'):
            claim = 'request'
        if rng.random() < 0.7:
            names = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.5:
                names.append('__verified_' + claim)
            a = {'kind': 'marker', 'claim': claim, 'names': names, 'drop': int(rng.random() < 0.6),
                 'uri': rng.randrange(2)}
        elif leg == 'authz_req' and rng.random() < 0.5:
            a = {'kind': 'replay', 'claim': claim, 'i': rng.randrange(100)}
        else:
            a = gen_forgery(rng, plan, claim)
        a.update({'s': s['id'], 'leg': leg, 'n': rng.choice([0, 0, 0, 1])})
        plan['attacks'].append(a)
    return plan


def run(env, plan):
    return finish(World(env, plan, ('marker', 'auth')), liveness=False)
