"""
P01: nothing is accepted as a token of someone who did not sign it.
"""
from checks.pcommon import TOKEN_LEGS
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_assert
from checks.pcommon import gen_forgery
from checks.pcommon import gen_later
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world
from checks.pcommon import legs_of

PROPERTY = 'P01'
RUNS = {'quick': 6000, 'thorough': 200000}
RULE = ('1-3 providers and 1-3 clients with 1-4 sessions of random flow, algorithms and verification options, messages '
        'lost, repeated, delayed; 1-4 forgeries of ID tokens, logout tokens and client assertions on the way; what is '
        'accepted must have been signed by its issuer; non-trivial: something was verified; distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, clocks, randomness incl. ECDSA nonces, JWKS end points (simulated)']
ASSUMPTIONS = ['a client shares a secret with one provider only', 'not with "trusting" or verify=False']
PROBES = ('accepted', 'rejected-auth')
SHRINK = ('attacks', 'net', 'rotations', 'sessions')


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    n = rng.choice([1, 2, 2, 3, 4])
    plan['sessions'] = [gen_session(rng, plan, i, careful=rng.choice([0.3, 0.6, 0.9])) for i in range(n)]
    for s in plan['sessions']:
        s['at'] = rng.randrange(20 * 10 ** 9)
        if 'nonce_storage_time' in s['kw']:
            s['storage'] = 14400
        if rng.random() < 0.4:
            s['assert'] = gen_assert(rng)
            s['assert'].update({'exp': 600, 'skew': 300})
        if rng.random() < 0.5:
            s['later'] = [gen_later(rng, s['alg']) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            # of an earlier session
            s['hint'] = rng.choice([1, 1, 1, 'none', 'plain', 'evil'])
            s['hint_enc'] = int(rng.random() < 0.3)
        if rng.random() < 0.1:
            s['kw'].append(rng.choice(['none', 'sigalg']))
    gen_net(rng, plan, rng.choice([0, 0, 1, 3]))
    plan['attacks'] = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        s = rng.choice(plan['sessions'])
        legs = [x for x in legs_of(s) if not (x == 'authz_resp' and 'id_token' not in s['flow']) and
                not (x == 'authz_req' and s.get('hint') != 1) and
                not (x == 'token_req' and not s.get('assert'))]
        if not legs:
            continue
        leg = rng.choice(legs)
        a = gen_forgery(rng, plan, 'id_token_hint' if leg == 'authz_req' else TOKEN_LEGS[leg])
        a.update({'s': s['id'], 'leg': leg, 'n': rng.choice([0, 0, 0, 1])})
        plan['attacks'].append(a)
    if rng.random() < 0.2:
        plan['rotations'] = [{'op': rng.randrange(3), 'at': rng.randrange(20 * 10 ** 9), 'key': ['EC', 12],
                              'drop': rng.randrange(2), 'lag': 0}]
    return plan


def run(env, plan):
    return finish(World(env, plan, ('auth',)), liveness=False)
