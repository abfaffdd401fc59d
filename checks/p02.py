"""
P02: tokens and codes are only good for the client, the provider and the session they were made for.
"""
from checks.pcommon import TOKEN_LEGS
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import gen_assert
from checks.pcommon import gen_later
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world
from checks.pcommon import legs_of

PROPERTY = 'P02'
RUNS = {'quick': 7000, 'thorough': 200000}
RULE = ('1-3 providers and 1-3 clients with similar identifiers and 2-5 sessions of random flow, algorithm and '
        'verification options, messages lost, repeated, delayed; properly signed tokens with other audiences, '
        'authorised parties, nonces, issuers, hashes, missing claims, or of other sessions, codes and access tokens '
        'exchanged between sessions; nothing that does not belong is accepted; non-trivial: something was verified; '
        'distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, clocks, randomness incl. ECDSA nonces, JWKS end points (simulated)']
ASSUMPTIONS = ['what a client does not ask for when it verifies (iss, client_id, nonce) is not checked for it',
               'a nonce that is asked for but is not in the token at all is let through']
PROBES = ('accepted', 'rejected-bind')
SHRINK = ('attacks', 'net', 'sessions')

CLAIMS = ('iss', 'sub', 'aud', 'azp', 'nonce', 'exp', 'iat', 'jti', 'events', 'sid', 'at_hash', 'c_hash')


def gen_tok(rng):
    tok = {}
    if rng.random() < 0.4:
        tok['near'] = {rng.choice(['iss', 'aud', 'azp', 'nonce', 'at_hash', 'c_hash', 'at_hash', 'c_hash']): rng.randrange(180)}
        return tok
    for _ in range(rng.choice([1, 1, 2])):
        what = rng.choice(['aud', 'azp', 'nonce', 'iss', 'at_hash', 'c_hash', 'many', 'str'])
        if what == 'aud':
            tok['aud'] = rng.choice([['other'], ['other', 'x'], ['x'], ['clients'], ['clien'], ['']])
        elif what == 'many':
            tok['aud'] = rng.choice([['self', 'other'], ['other', 'self'], ['self', 'x', 'other']])
            tok['azp'] = rng.choice([None, 'self', 'self', 'other', 'x', 'y'])
        elif what == 'azp':
            tok['azp'] = rng.choice(['self', 'other', 'x', 'clien'])
        elif what == 'nonce':
            tok['nonce'] = rng.choice(['none', 'wrong', 'wrong'])
        elif what == 'iss':
            tok['iss'] = rng.choice(['https://op.example.com', 'https://op.example.com/', 'https://op.example.com/a',
                                     'https://op.example.org', 'https://OP.example.com', 'x'])
        elif what == 'str':
            tok['aud_str'] = 1
        else:
            tok[what] = rng.choice(['none', 'wrong', 'wrong'])
    return tok


def gen_attack(rng, plan, s):
    leg = rng.choice(legs_of(s))
    claim = TOKEN_LEGS.get(leg)
    what = rng.choice(['wire', 'replay', 'replay', 'set', 'set', 'evil'])
    other = rng.randrange(6)
    a = None
    if what == 'wire':
        a = {'kind': 'wire', 'i': rng.randrange(100)}
    elif what == 'replay' and leg not in ('authz_req',) and claim:
        a = {'kind': 'replay', 'claim': claim, 'i': rng.randrange(100)}
    elif what == 'evil' and leg not in ('authz_req',) and claim:
        # by a provider that really is one
        c = rng.choice(CLAIMS)
        v = rng.choice([None, '', 'x', 'client', ['client'], 'https://op.example.com', 'https://op.example.org',
                        ['x', 'client'], [], 'n0', 'n1', {'http://schemas.openid.net/event/backchannel-logout': {'a': 1}},
                        {'http://schemas.openid.net/event/backchannel-logout2': {}}, {}])
        if c in ('exp', 'iat'):
            v = None
        a = {'kind': 'evil', 'claim': claim, 'alg': s['alg'] if s['alg'] in ('ES256', 'RS256') else 'ES256',
             'kid': 'own', 'op': rng.choice([s['op'], s['op'], rng.randrange(3)]), 'claims': {c: v}}
        if rng.random() < 0.3:
            a['claims']['aud'] = rng.choice([['x', 'client'], ['client1', 'client', 'c']])
            a['claims']['azp'] = rng.choice([None, 'x', 'client', 'client1'])
    elif what == 'set':
        p = {'authz_req': [{'state': 's%d' % other}, {'nonce': None}, {'response_type': None},
                           {'nonce': ['near', rng.randrange(100)]}],
             'authz_resp': [{'code': 'code%d' % other}, {'access_token': 'at%d' % other}, {'code': None},
                            {'access_token': None}, {'access_token': 'at1'}, {'code': 'code1'},
                            {'iss': rng.choice(['https://op.example.com', 'https://op.example.org', ''])},
                            {'client_id': rng.choice(['client', 'client1', 'c', ''])},
                            {'aud': rng.choice(['client', 'client1', 'c', 'https://rp.example.org', 'clients'])},
                            {rng.choice(['iss', 'client_id', 'aud', 'code', 'access_token']): ['near', rng.randrange(100)]}],
             'token_req': [{'code': 'code%d' % other}, {'code': None}, {'redirect_uri': None}, {'grant_type': None}],
             'token_resp': [{'access_token': None}, {'token_type': None}],
             'back': [{'logout_token': None}],
             'end': [{'id_token_hint': None}],
             'refresh': [{'state': None}, {'redirect_url': None}, {'id_token': None}],
             'check': [{'id_token': None}]}[leg]
        a = {'kind': 'set', 'params': rng.choice(p)}
    if a:
        a.update({'s': s['id'], 'leg': leg, 'n': rng.choice([0, 0, 0, 1])})
    return a


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    n = rng.choice([2, 2, 3, 4, 5])
    careful = rng.choice([0.3, 0.6, 0.9, 1])
    plan['sessions'] = [gen_session(rng, plan, i, careful=careful) for i in range(n)]
    for s in plan['sessions']:
        s['at'] = rng.randrange(20 * 10 ** 9)
        if 'nonce_storage_time' in s['kw']:
            s['storage'] = 14400
        if rng.random() < 0.3:
            s['assert'] = gen_assert(rng)
            s['assert'].update({'exp': 600, 'skew': 300})
            if rng.random() < 0.3:
                s['assert']['aud'] = rng.choice(['other', 'near', 'near', 'iss'])
                s['assert']['i'] = rng.randrange(180)
        if rng.random() < 0.5:
            s['later'] = [gen_later(rng, s['alg']) for _ in range(rng.choice([1, 1, 2]))]
            for c in s['later']:
                if c['what'] == 'back' and rng.random() < 0.5:
                    c.update(rng.choice([{'aud': 'other'}, {'aud': 'many'}, {'nonce': 1}, {'events': 'more'},
                                         {'events': 'wrong'}, {'events': 'value'}, {'ids': 'none'}, {'aud': 'near'},
                                         {'aud': 'iss'}, {'events': 'near'}]), i=rng.randrange(180))
        if rng.random() < 0.5:
            s['tok'] = gen_tok(rng)
        if rng.random() < 0.2:
            s['op_nonce'] = 1
    if rng.random() < 0.4:
        # so that it is possible
        same = rng.randrange(len(plan['ops']))
        for s in plan['sessions']:
            s['op'] = same
            s['alg'] = plan['sessions'][0]['alg']
    gen_net(rng, plan, rng.choice([0, 0, 1, 3]))
    plan['attacks'] = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        a = gen_attack(rng, plan, rng.choice(plan['sessions']))
        if a:
            plan['attacks'].append(a)
    return plan


def run(env, plan):
    return finish(World(env, plan, ('bind',)), liveness=False)
