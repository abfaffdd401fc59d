"""
P06: the parameters of a request that count are the ones in the signed request object.
"""
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_forgery
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world

PROPERTY = 'P06'
RUNS = {'quick': 8000, 'thorough': 200000}
RULE = ('1-2 providers and 1-3 clients, 1-4 sessions with request objects (OpenID Connect, JAR and PAR requests) signed '
        'by the client, some encrypted, sent with parameters that are the same, changed, added or left out, forged, swapped and '
        'replayed on the way; what the provider sees is what was signed; non-trivial: something was verified; distinct '
        'by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, clocks, randomness incl. ECDSA nonces, JWKS end points (simulated)']
ASSUMPTIONS = ['request objects may be unsigned if the client made them so (OpenID Connect Core 6.1)',
               'they may be signed by another party the provider knows, who is then named as issuer (6.1)',
               'parameters that are required but are not in the request object are for the provider to miss']
PROBES = ('accepted', 'rejected-ro')
SHRINK = ('attacks', 'net', 'sessions')

VALUES = {'nonce': ['n0', 'other'], 'redirect_uri': ['https://evil/cb', 'https://rp/cb2'], 'state': ['s0', 's1', 'x'],
          'scope': ['openid', 'openid email', 'email', 'openid offline_access'],
          'response_type': ['code', 'id_token', 'code id_token', 'token'], 'client_id': ['client', 'client1', 'c'],
          'prompt': ['none', 'login', 'none login', 'consent', 'bogus', 'login consent'],
          'display': ['page', 'bogus', 'popup'], 'max_age': ['10', '0', '100000'],
          'login_hint': ['admin', 'x y'], 'acr_values': ['1', '1 2'], 'ui_locales': ['en', 'en sv'], 'extra': ['x', 'å'],
          'code_challenge': ['abc'], 'response_mode': ['form_post', 'query'],
          'claims': ['{"userinfo": {"email": null}}', '{"id_token": {"acr": {"values": ["1", "2"]}}}', '{}'],
          'registration': ['{"redirect_uris": ["https://evil/cb"]}', '{"client_name": "x"}']}


def some(rng, n, forget=0.2):
    res = {}
    for _ in range(n):
        k = rng.choice(list(VALUES))
        res[k] = None if rng.random() < forget else rng.choice(VALUES[k])
    return res


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan, n_ops=rng.choice([1, 1, 2]), skews=False)
    n = rng.choice([1, 1, 2, 3, 4])
    plan['sessions'] = [gen_session(rng, plan, i, careful=0.5) for i in range(n)]
    for s in plan['sessions']:
        s['at'] = rng.randrange(20 * 10 ** 9)
        s['lifetime'] = 3600
        if rng.random() < 0.85:
            s['ro'] = {'alg': rng.choice(['ES256', 'ES256', 'HS256', 'none']), 'jti': rng.randrange(2),
                       'lifetime': rng.choice([0, 60, 3600]), 'enc': int(rng.random() < 0.3)}
            if rng.random() < 0.4:
                s['ro']['inner'] = some(rng, rng.choice([1, 1, 2]))
            if rng.random() < 0.5:
                s['ro']['outer'] = some(rng, rng.choice([1, 1, 2]), 0)
        if rng.random() < 0.5:
            s['params'] = {k: v for k, v in some(rng, 1, 0).items() if k not in ('client_id', 'state', 'nonce',
                                                                               'response_type', 'redirect_uri')}
        if rng.random() < 0.5:
            s['jar'] = [{'cls': rng.choice(['jar', 'par']), 'after': rng.randrange(10 ** 9),
                         'alg': rng.choice(['ES256', 'HS256', 'none']), 'inner': some(rng, rng.choice([0, 2, 4]), rng.choice([0, 0.4])),
                         'outer': some(rng, rng.choice([0, 1, 3]), 0), 'bare': int(rng.random() < 0.2),
                         'enc': int(rng.random() < 0.3), 'merge': rng.sample([
                             'strict', 'lax', sorted(rng.sample(sorted(VALUES), 3)), ['state'], ['x']], rng.choice([0, 1, 2]))}
                        for _ in range(rng.choice([1, 2]))]
    gen_net(rng, plan, rng.choice([0, 0, 1]))
    plan['attacks'] = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = rng.choice(plan['sessions'])
        leg = 'authz_req'
        if s.get('jar') and rng.random() < 0.5:
            leg = 'jar%d' % rng.randrange(len(s['jar']))
        if rng.random() < 0.5:
            a = {'kind': 'set', 'params': some(rng, rng.choice([1, 1, 2]))}
            if rng.random() < 0.1:
                a['params']['request'] = None
        elif rng.random() < 0.15:
            a = {'kind': 'wire', 'i': rng.randrange(10)}
        else:
            a = gen_forgery(rng, plan, 'request')
            if a['kind'] in ('none', 'plain'):
                # is what a client may send, then it is what counts
                a['claims'] = rng.choice([None, {'redirect_uri': 'https://evil/cb'}, {'nonce': None}, {'scope': 'email'}])\
                    or {}
            elif a.get('claims') and a['kind'] != 'payload':
                a['claims'] = {'redirect_uri': 'https://evil/cb'}
        a.update({'s': s['id'], 'leg': leg, 'n': rng.choice([0, 0, 0, 1])})
        plan['attacks'].append(a)
    return plan


def run(env, plan):
    return finish(World(env, plan, ('ro',)), liveness=False)
