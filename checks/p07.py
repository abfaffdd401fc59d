"""
P07: a message that lacks what it must have, or has what it can't have, is not accepted, however it came to be so.
"""
import copy
import importlib
import json
from urllib.parse import parse_qsl
from urllib.parse import urlencode

from sim import core
from checks import p05
from checks.p05 import B
from checks.p05 import D
from checks.p05 import E
from checks.p05 import I
from checks.p05 import L
from checks.p05 import OAUTH2
from checks.p05 import OIDC
from checks.p05 import P
from checks.p05 import S
from checks.p05 import SESS
from checks.p05 import IDA
from checks.p05 import DEV
from checks.p05 import base
from checks.p05 import enc_key
from checks.p05 import tag
from checks.p05 import value
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import fixture
from checks.pcommon import gen_world
from checks.pcommon import key_of

PROPERTY = 'P07'
RUNS = {'quick': 3500, 'thorough': 150000}
RULE = ('2-12 messages of the kinds the standards define, sent between parties in random serialisations, signed or '
        'encrypted, each as it should be and with one flaw (made by the sender or on the way): a required parameter is '
        'missing or empty, a value is of another type, there are two values, or one that is not allowed, a rule of the '
        'standard is broken, the text is cut short; the one is accepted, the other is not, in any order; non-trivial: '
        'something was rejected; distinct by event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, HTTP, clocks, randomness incl. ECDSA nonces (simulated)']
ASSUMPTIONS = ['numbers and booleans are text in urlencoded messages, whatever text that is',
               'null, like the empty string, is the same as no value', 'one string is as good as a list with one string',
               'a pushed or JWT secured request is looked into by whoever needs its parameters']
PROBES = ('drop', 'blank', 'type', 'twice', 'rule', 'cut')
SHRINK = ('misc',)
SEC = 10 ** 9

CLIENT = p05.CLIENT
AUTHZ = {'response_type': [['code'], ['code', 'id_token'], ['id_token'], ['id_token', 'token']], 'client_id': S,
         'redirect_uri': S, 'scope': [['openid'], ['openid', 'profile']]}
AUTHZ_OPT = {'state': S, 'nonce': S, 'display': ['page', 'popup', 'touch', 'wap'],
             'prompt': [['none'], ['login'], ['login', 'consent'], ['select_account']], 'max_age': I, 'ui_locales': P,
             'login_hint': S, 'acr_values': P, 'claims_locales': P, 'response_mode': S, 'registration': D}
# kinds on top of those of P05: module, class, required, optional, forms
MORE = [
    (OIDC, 'AuthorizationRequest', AUTHZ, AUTHZ_OPT, 'ujw'),
    (OIDC, 'OpenIDRequest', AUTHZ, AUTHZ_OPT, 'ujw'),
    (OIDC, 'AccessTokenResponse', {'access_token': S, 'token_type': S}, {
        'id_token': '$idt', 'expires_in': I, 'refresh_token': S, 'scope': P, 'state': S}, 'j'),
    (OIDC, 'AuthorizationResponse', {}, {
        'code': S, 'state': S, 'iss': ['https://op'], 'client_id': ['c'], 'session_state': S, 'expires_in': I}, 'uj'),
    (OIDC, 'IdToken', {'iss': ['https://op'], 'sub': S, 'aud': [['c'], ['c']], 'exp': [4000000000], 'iat': '$now'}, {
        'nonce': S, 'auth_time': I, 'acr': S, 'amr': L, 'azp': ['c'], 'sid': S, 'email_verified': B}, 'jw'),
    (OIDC, 'AuthnToken', {'iss': ['c'], 'sub': S, 'aud': [['https://op'], ['x', 'https://op']], 'jti': S, 'exp': [4000000000]}, {
        'iat': '$now'}, 'jw'),
    (SESS, 'LogoutToken', {'iss': ['https://op'], 'aud': [['c']], 'iat': '$now', 'jti': S, 'sub': S,
                           'events': [{'http://schemas.openid.net/event/backchannel-logout': {}}]}, {'sid': S}, 'jw'),
    (SESS, 'RefreshSessionRequest', {'id_token': '$idt', 'redirect_url': S, 'state': S}, {}, 'uj'),
    (SESS, 'RefreshSessionResponse', {'id_token': '$idt', 'state': S}, {}, 'uj'),
    (SESS, 'CheckSessionRequest', {'id_token': '$idt'}, {}, 'uj'),
    (SESS, 'BackChannelLogoutRequest', {'logout_token': '$lot'}, {}, 'u'),
    (SESS, 'EndSessionRequest', {}, {'id_token_hint': '$idt', 'state': S}, 'u'),
    (OAUTH2, 'JWTSecuredAuthorizationRequest', {'client_id': S, 'response_type': P, 'request_uri': S}, {}, 'u'),
    (OAUTH2, 'PushedAuthorizationRequest', {'client_id': S, 'response_type': P}, {'redirect_uri': S}, 'u'),
    (IDA, 'IdDocument', {'method': S, 'verifier': [{'organization': 'å', 'txn': 'x'}]}, {
        'type': ['id_document']}, 'jw'),
    (IDA, 'Evidence', {'type': ['id_document'], 'method': S, 'verifier': [{'organization': 'å', 'txn': 'x'}]}, {}, 'jw'),
    (IDA, 'Evidence', {'type': ['utility_bill'], 'provider': [{'name': 'å'}]}, {}, 'jw'),
]
# those where what is required is so only sometimes, or a rule says more
NOT_REQUIRED = {(SESS, 'LogoutToken'): ['sub'], (OAUTH2, 'JWTSecuredAuthorizationRequest'): ['client_id', 'response_type'],
                (OAUTH2, 'PushedAuthorizationRequest'): ['client_id', 'response_type'],
                (IDA, 'Provider'): ['name'], (OAUTH2, 'ROPCAccessTokenRequest'): [],
                (IDA, 'IdentityAssuranceClaims'): [], (IDA, 'Evidence'): ['type'], (IDA, 'VerifiedClaimsRequest'): ['verification'],
                (OAUTH2, 'AuthorizationErrorResponse'): ['error'], (OAUTH2, 'TokenErrorResponse'): ['error'],
                (OIDC, 'AuthorizationErrorResponse'): ['error'], (OIDC, 'TokenErrorResponse'): ['error'],
                (OIDC, 'ClientRegistrationErrorResponse'): ['error'], (OIDC, 'UserInfoErrorResponse'): ['error'],
                (IDA, 'QES'): ['type'], (IDA, 'UtilityBill'): ['type'], (IDA, 'IdDocument'): ['type'],
                (DEV, 'AccessTokenRequest'): ['grant_type', 'client_id'],
                # there is a default
                (OIDC, 'WebFingerRequest'): [], (OIDC, 'ProviderConfigurationResponse'): ['token_endpoint']}
ERRORS = [{'error': 'no_such_error'}, {'error': 'Invalid_request'}, {'error_description': 'it is "x"'}, {'error_description': 'a\\b'},
          {'error_description': 'å'}, {'error_description': 'a\nb'}, {'error_description': 'x\x7f'}, {'error_description': '\tx'}]
CHARS = [r for r in ERRORS if 'error_description' in r]
OPENID = [{'scope': ['profile']}, {'scope': ['openidx', 'email']}, {'response_type': ['id_token'], 'nonce': None},
          {'response_type': ['code', 'id_token', 'token'], 'nonce': None}, {'prompt': ['none', 'login']},
          {'prompt': ['consent', 'none']}, {'prompt': ['None']}, {'prompt': ['login', 'x']},
          {'prompt': ['login', 'bogus', 'consent']}, {'prompt': ['login', 'none', 'consent']}, {'display': 'Page'},
          {'display': 'x'}, {'scope': ['openid', 'offline_access'], 'prompt': None},
          {'scope': ['openid', 'offline_access'], 'prompt': ['login']}]
REG = [{'initiate_login_uri': 'http://rp/login'}, {'initiate_login_uri': 'httpsx://rp'}, {'application_type': 'Web'},
       {'subject_type': 'private'}, {'application_type': 'x'}, {'token_endpoint_auth_signing_alg': 'none'}] + [
    {k + '_enc': 'A128GCM', k + '_alg': None} for k in ('id_token_encrypted_response', 'userinfo_encrypted_response',
                                                        'request_object_encryption')]
# what can't be asked about a claim
BAD_CLAIMS = [('email', {'value': v}) for v in (0, False, [], {}, 5, ['x'])] + [
    ('name', {'values': v}) for v in ('abc', {'a': 1}, 5, 'x', True, [0], ['x', False], ['x', None], [['x']], '')] + [
    ('given_name', {'purpose': v}) for v in ('', 0, ['a', 'b', 'c'], 'å' * 4, 'ab', {'a': 1, 'b': 2, 'c': 3}, 'a\\b', 'x' * 301)] + [
    ('title', dict({'value': 'x'}, essential=v)) for v in (0, 1, 'true', [], '', {}, 1.0)] + [
    ('updated_at', {'value': v}) for v in (True, '5', False, '', [5])] + [
    ('email_verified', {'values': v}) for v in ([True, 1], ['true'], [0], 1)]
RULES = {
    (OIDC, 'AuthorizationRequest'): OPENID, (OIDC, 'OpenIDRequest'): OPENID,
    (OIDC, 'AuthorizationErrorResponse'): ERRORS, (OAUTH2, 'AuthorizationErrorResponse'): ERRORS + [
        {'error': 'login_required'}, {'error': 'interaction_required'}],
    (OAUTH2, 'TokenErrorResponse'): ERRORS + [{'error': 'access_denied'}], (OIDC, 'TokenErrorResponse'): ERRORS + [
        {'error': 'server_error'}],
    (OIDC, 'ClientRegistrationErrorResponse'): ERRORS + [{'error': 'invalid_request'}],
    (OIDC, 'UserInfoErrorResponse'): ERRORS + [{'error': 'invalid_grant'}],
    (OAUTH2, 'AuthorizationResponse'): CHARS, (OAUTH2, 'AccessTokenResponse'): CHARS, (OIDC, 'AuthorizationResponse'): CHARS,
    (OIDC, 'AccessTokenResponse'): CHARS, (OAUTH2, 'NoneResponse'): CHARS, (OIDC, 'OpenIDSchema'): CHARS + [
        {'birthdate': 'x'}, {'birthdate': '1999-13-01'}, {'birthdate': '1999-02-30'}, {'birthdate': '19990101'},
        {'birthdate': '0000-13-01'}, {'birthdate': '99'}, {'birthdate': '1999-01-01x'}] + [
        {'birthdate': b} for b in ('x-12-31', '99999-12-31', '12-31', '--12-31', '00-12-31', '1999-01', '1999-', '0000-02-30',
                                   '1999-12-31T00:00:00Z', '1900-02-29')],
    (OAUTH2, 'CCAccessTokenRequest'): [{'grant_type': 'x'}, {'grant_type': 'client_credential'}],
    (OAUTH2, 'RefreshAccessTokenRequest'): [{'grant_type': 'authorization_code'}, {'grant_type': 'refresh'}],
    (OIDC, 'RefreshAccessTokenRequest'): [{'grant_type': 'authorization_code'}],
    (DEV, 'AccessTokenRequest'): [{'device_code': 'x', 'client_id': None}, {'client_assertion_type': 'x'}],
    (OIDC, 'RegistrationRequest'): REG,
    (OIDC, 'RegistrationResponse'): [{'registration_access_token': 'x'}, {'registration_client_uri': 'https://op/r'}],
    (OIDC, 'ProviderConfigurationResponse'): CHARS + [
        {'issuer': 'http://op.example.com'}, {'issuer': 'https://op/?x=y'}, {'issuer': 'https://op/#x'}, {'issuer': 'op'},
        {'scopes_supported': ['profile']}, {'scopes_supported': ['openid', 'a"b']}, {'scopes_supported': ['openid', 'a b']},
        {'scopes_supported': ['openid', 'å']}, {'scopes_supported': ['x', 'a\\b', 'openid']},
        {'id_token_signing_alg_values_supported': ['ES256']}, {'id_token_signing_alg_values_supported': ['none', 'HS256']},
        {'token_endpoint': None, 'response_types_supported': ['code']},
        {'token_endpoint': None, 'response_types_supported': ['id_token', 'code id_token']}],
    (OIDC, 'IdToken'): [{'iss': 'https://op/'}, {'aud': ['d']}, {'aud': ['c', 'd'], 'azp': None}, {'aud': ['c', 'd'], 'azp': 'e'},
                        {'azp': 'd'}, {'exp': 1000}, {'iat': 1000}, {'birthdate': 'x'}],
    (OIDC, 'AuthnToken'): [{'aud': ['d']}, {'exp': 1000}, {'iss': 'd'}, {'iat': 4000000000}],
    (OIDC, 'JsonWebToken'): [{'exp': 1000}, {'nbf': 4000000000}, {'iat': 4000000000}],
    (SESS, 'LogoutToken'): [{'sub': None, 'sid': None}, {'nonce': 'x'}, {'nonce': 0}, {'nonce': False}, {'nonce': []}, {'events': {}}, {'events': {'x': {}}}, {'aud': ['d']},
                            {'iss': 'https://other'}, {'iat': 4000000000},
                            {'events': {'http://schemas.openid.net/event/backchannel-logout': {'x': 1}}},
                            {'events': {'http://schemas.openid.net/event/backchannel-logout': {}, 'x': {}}}] + [
        {'events': {'http://schemas.openid.net/event/backchannel-logout': v}} for v in ([], '', None, 0, False, 'x', [{}])],
    (SESS, 'EndSessionRequest'): [{'post_logout_redirect_uri': 'https://rp/', 'id_token_hint': None},
                                  {'id_token_hint': 'x'}, {'id_token_hint': 'a.b.c'}],
    (SESS, 'RefreshSessionRequest'): [{'id_token': 'x.y.z'}],
    (SESS, 'CheckSessionRequest'): [{'id_token': 'x.y.z'}],
    (SESS, 'BackChannelLogoutRequest'): [{'logout_token': 'x'}, {'logout_token': '$idt'}],
    (OAUTH2, 'JWTSecuredAuthorizationRequest'): [{'request_uri': None}, {'request_uri': None, 'request': 'x'}],
    (IDA, 'Evidence'): [{'type': 'x'}, {'type': 'QES'}, {'type': None, 'method': None, 'provider': None, 'issuer': None}],
    (IDA, 'VerificationElementRequest'): [{'verification_process': {'essential': 'x'}}],
    (IDA, 'VerifiedClaimsRequest'): [
        {'claims': {'given_name': {'essential': 'x'}}}, {'claims': {'given_name': {'value': 5}}},
        {'claims': {'given_name': {'values': ['x', 5]}}}, {'claims': {'given_name': {'purpose': 'ab'}}},
        {'claims': {'given_name': {'purpose': 'a"b"c'}}}, {'claims': {'given_name': {'purpose': 'x' * 301}}},
        {'claims': {'email_verified': {'value': 'yes'}}}] + [{'claims': {k: v}} for k, v in BAD_CLAIMS],
    (IDA, 'IDAClaimsRequest'): [
        {'verified_claims': {'verification': {'trust_framework': None}, 'claims': {k: v}}} for k, v in BAD_CLAIMS] + [
        {'verified_claims': {'verification': {'trust_framework': None}, 'claims': {'given_name': {'essential': 1.5}}}},
        {'verified_claims': {'verification': {'trust_framework': None}, 'claims': {'title': {'purpose': 'å' * 5}}}}],
}
# what one that verifies notices, not who serialises
NOTED_LATE = {('JWTSecuredAuthorizationRequest', 'request_uri')}
# what goes into verify()
KW = {(OIDC, 'IdToken'): {'iss': 'https://op', 'client_id': 'c'}, (OIDC, 'AuthnToken'): {'aud': 'https://op', 'iss': 'c'},
      (SESS, 'LogoutToken'): {'iss': 'https://op', 'aud': 'c'}}
# what the classes don't know
UNKNOWN = ['x', 'y', 'device_code', 'expires']
KINDS = [k for k in p05.KINDS if k[:2] != (OAUTH2, 'SecurityEventToken')] + MORE + [
    k for k in p05.KINDS if k[:2] == (OAUTH2, 'SecurityEventToken')]
TYPES = {
    S: [5, True, ['x'], ['a', 'b'], {'a': 'b'}, 1.5, False], I: ['x', '', [1], {'a': 1}, True, '1x'],
    B: ['x', 'true', 1, 0, {'a': 1}, [True], 'false'], L: [5, True, [1], ['x', 2], ['x', None], [None, 'x'], {'a': 'b'}, [['x']], [True], [{'a': 'b'}], {'c': 1}, {'openid': 1}, {'https://op': 1}]}
TYPES[E], TYPES[P] = TYPES[S], TYPES[L]
TYPES[D] = [5, True, 'x', [1], 1.5]
TYPES[I] = [v for v in TYPES[I] if v != '']
EMPTY = {S: ['', None], E: ['', None], I: ['', None], B: ['', None], L: [[], None, [''], ''], P: [[], None, ''], D: [{}, None]}


def kind_of(v):
    if isinstance(v, list):
        return (L if isinstance(v[0][0], str) else None) if isinstance(v[0], list) else S if isinstance(v[0], str) else None
    return None if isinstance(v, dict) else S if v in ('$idt', '$lot') else I if v == '$now' else v


def gen_flaw(rng, n, args, form):
    mod, name, req, opt, forms = KINDS[n]
    spec = dict({k: S for k in args}, **opt)
    spec.update(req)
    for k in args:
        spec[k] = spec.get(base(k), S) if '#' in k else spec[k]
    must = [k for k in req if k not in NOT_REQUIRED.get((mod, name), ()) and k not in p05.DEFAULTS.get((mod, name), {})]
    kinds = []
    if must:
        kinds += ['drop', 'drop', 'blank']
    typed = [k for k in args if kind_of(spec[k]) and base(k) not in UNKNOWN and not (
        mod == IDA and base(k) in ('time', 'date', 'created_at', 'date_of_issuance', 'date_of_expiry', 'type'))]
    known = [k for k in args if k in spec and kind_of(spec[k]) in (S, E, I, B) and base(k) not in UNKNOWN]
    if form != 'u' and typed:
        kinds += ['type', 'type']
    if form == 'u' and known:
        kinds += ['twice']
    if (mod, name) in RULES:
        kinds += ['rule', 'rule', 'rule']
    if form in 'jw':
        kinds += ['cut', 'odd']
    if not kinds:
        return None
    kind = rng.choice(kinds)
    if kind == 'drop':
        return {'kind': kind, 'k': rng.choice(must)}
    if kind == 'blank':
        k = rng.choice(must)
        t = kind_of(spec[k])
        return {'kind': kind, 'k': k, 'v': rng.choice(EMPTY[t]) if form != 'u' and t else ''}
    if kind == 'type':
        k = rng.choice(typed)
        return {'kind': kind, 'k': k, 'v': rng.choice(TYPES[kind_of(spec[k])])}
    if kind == 'twice':
        return {'kind': kind, 'k': rng.choice(known), 'v': rng.choice(['same', 'x', '']), 'first': rng.randrange(2)}
    if kind == 'rule':
        return {'kind': kind, 'r': rng.randrange(len(RULES[(mod, name)]))}
    if kind == 'odd':
        return {'kind': kind, 'v': rng.choice([[], ['x'], 5, None, 'x', True, [[]], ''])}
    return {'kind': 'cut', 'frac': rng.random()}


def gen_message(rng, i, horizon):
    n = rng.randrange(len(KINDS))
    while KINDS[n][:2] == ('oidcmsg.message', 'Message'):
        n = rng.randrange(len(KINDS))
    _, name, req, opt, forms = KINDS[n]
    args = {k: value7(rng, v) for k, v in req.items()}
    share = min(0.5, 4 / (len(opt) or 1))
    for k, v in opt.items():
        if rng.random() < share:
            args[k] = value7(rng, v)
    if 'id_token' in args.get('response_type', ()) and KINDS[n][0] == OIDC:
        args['nonce'] = 'n'
    if rng.random() < 0.2:
        tag(rng, {k: v for k, v in req.items() if not isinstance(v, str) or v[0] != '$'}, opt, args)
    if 'u' in forms:
        for k in args:
            if kind_of(req.get(base(k), opt.get(base(k)))) == L and isinstance(args[k], list):
                args[k] = [x.replace(' ', '_').replace('\n', '_') or 'x' for x in args[k]]
    form = rng.choice(forms + ('e' if 'w' in forms and rng.random() < 0.3 else ''))
    sends = [{'flaw': None, 'ns': rng.randrange(5 * SEC), 'dst': 0}]
    for _ in range(rng.choice([1, 2, 3, 4])):
        f = gen_flaw(rng, n, args, form)
        if f:
            sends.append({'flaw': f, 'ns': rng.randrange(5 * SEC), 'dst': 0})
    rng.shuffle(sends)
    return {'id': i, 'kind': n, 'args': args, 'as': form, 'sends': sends, 'at': rng.randrange(horizon),
            'again': int(rng.random() < 0.3), 'key': rng.choice(['ES256', 'RS256', 'HS256'])}


def value7(rng, v):
    return v if isinstance(v, str) and v.startswith('$') else value(rng, v)


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    for n in plan['ops'] + plan['rps']:
        n['skew_ns'] = rng.randrange(-100, 100) * SEC
    plan['sessions'] = []
    plan['misc'] = [gen_message(rng, i, 60 * SEC) for i in range(rng.choice([2, 4, 8, 12]))]
    if rng.random() < 0.3:
        plan['misc'].append(gen_asker(rng, len(plan['misc']), 60 * SEC))
    return plan


class Asker:
    """Puts a request for claims together that nobody is to get"""

    def __init__(self, world, c):
        self.w = world
        self.c = c

    def start(self):
        from oidcmsg.oidc import identity_assurance as ida
        w, c = self.w, self.c
        w.on(w.rps[0])
        con = ida.ClaimsConstructor(getattr(ida, c['cls']))
        want = {}
        for k, v, good in c['ask']:
            if isinstance(v, str) and v.startswith('$'):
                v = ida.ClaimsConstructor(getattr(ida, v[1:]))
            try:
                con[k] = v
                ok, err = True, None
            except Exception as e:
                ok, err = False, e
            w.sim.event('ask', c['cls'], k, str(c['ask']), ok)
            w.verdicts['accepted' if ok else 'rejected'] += 1
            if ok and not good:
                w.flag('flaw', 'asked', '%s can be asked for with %s' % (k, v))
            if not ok and good:
                w.flag('flaw', 'not-asked', '%s can not be asked for with %s: %s: %s' % (k, v, type(err).__name__, err))
            if ok:
                want[k] = v.to_dict() if isinstance(v, ida.ClaimsConstructor) else v
            got = con.to_dict()
            if got != want or json.loads(con.to_json()) != want:
                w.flag('flaw', 'asked', 'asked for are %s, should be %s' % (got, want))


GOOD_CLAIMS = [('name', None), ('name', 'x'), ('email', {'essential': True}), ('title', {'value': 'å'}), ('updated_at', 5),
               ('name', {'values': ['a', 'b']}), ('email_verified', {'value': False}), ('email_verified', True),
               ('given_name', {'purpose': 'abc', 'essential': False}), ('updated_at', {'values': [0, 5]}), ('x', 5), ('x', None)]
OTHER_CLAIMS = {
    'IdentityAssuranceClaims': ([], [('name', 5), ('name', True), ('email_verified', 'x'), ('email', ['x']), ('updated_at', True),
                                     ('title', '$Verifier'), ('updated_at', '5'), ('name', 1.5)]),
    'VerifiedClaims': ([('verification', None), ('verification', '$VerificationElement'), ('claims', None),
                        ('claims', '$IdentityAssuranceClaims'), ('claims', {'name': None}), ('verification', {
                            'trust_framework': None})],
                       [('verification', 5), ('verification', 'x'), ('claims', '$VerificationElement'),
                        ('verification', '$IdentityAssuranceClaims'), ('claims', True), ('claims', ['name'])]),
    'VerificationElement': ([('trust_framework', None), ('trust_framework', 'x'), ('time', None), ('evidence', None),
                             ('evidence', [{'type': 'qes'}]), ('evidence', ['$Evidence'][:0]), ('time', {'max_age': 5})],
                            [('trust_framework', 5), ('evidence', 5), ('evidence', ['x']), ('evidence', [{'type': 'qes'}, 5]),
                             ('evidence', '$Verifier'), ('trust_framework', ['x'])])}


def gen_asker(rng, i, horizon):
    cls = rng.choice(sorted(OTHER_CLAIMS))
    good, bad = OTHER_CLAIMS[cls]
    if cls == 'IdentityAssuranceClaims':
        good, bad = good + GOOD_CLAIMS, bad + BAD_CLAIMS
    return {'id': i, 'cls': cls, 'at': rng.randrange(horizon), 'ask': [
        list(rng.choice(good)) + [1] if rng.random() < 0.5 else list(rng.choice(bad)) + [0] for _ in range(rng.choice([1, 2, 4]))]}


class Sender:
    def __init__(self, world, c):
        self.w = world
        self.c = c
        self.kj = None
        mod, name, req, opt, _ = KINDS[c['kind']]
        self.mod, self.name = mod, name
        self.cls = getattr(importlib.import_module(mod), name)

    def start(self):
        args = copy.deepcopy(self.c['args'])
        for k, v in args.items():
            args[k] = self.fill(v)
        nodes = self.w.ops + self.w.rps
        for i, s in enumerate(self.c['sends']):
            dst = nodes[(self.c['id'] + i % 2) % len(nodes)]
            self.w.after(s['ns'], lambda s=s, dst=dst: self.deliver(s, dst, args))

    def fill(self, v):
        now = self.w.sim.now_ns // SEC - 300
        if v == '$now':
            return now
        if v == '$idt':
            return self.jws({'iss': 'https://op', 'sub': 's', 'aud': ['c'], 'exp': 4000000000, 'iat': now}, 'ES256')
        if v == '$lot':
            return self.jws({'iss': 'https://op', 'sub': 's', 'aud': ['c'], 'iat': now, 'jti': 'j',
                             'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}, 'ES256')
        return v

    def jws(self, body, alg):
        from cryptojwt.jws.jws import JWS
        text = body if isinstance(body, str) else json.dumps(body)
        return JWS(text, alg=alg).sign_compact([key_of({'ES256': ('EC', 14), 'RS256': ('RSA', 6), 'HS256': ('oct', 7)}[alg])])

    def deliver(self, s, dst, args):
        w = self.w
        w.on(dst)
        flaw = s['flaw']
        form = self.c['as']
        args = copy.deepcopy(args)
        if flaw and flaw['kind'] == 'rule':
            for k, v in RULES[(self.mod, self.name)][flaw['r']].items():
                if v is None:
                    args.pop(k, None)
                else:
                    args[k] = self.fill(v)
        wire = self.wire(form, args, flaw)
        if wire is None:
            return
        w.sim.event('send', self.name, form, flaw and flaw['kind'], wire)
        if flaw:
            w.sim.probe(flaw['kind'])
        for _ in range(1 + self.c['again']):
            try:
                ok, err = self.receive(form, wire), None
            except (core.HarnessError, core.Violation):
                raise
            except (NameError, UnboundLocalError, ImportError):
                raise
            except Exception as e:
                ok, err = False, e
            w.verdicts['accepted' if ok else 'rejected'] += 1
            if flaw and ok:
                w.flag('flaw', 'accepted-flaw', '%s.%s accepted although %s: %s' % (
                    self.mod, self.name, self.describe(flaw), wire))
            if not flaw and not ok:
                w.flag('flaw', 'rejected', '%s.%s rejected (%s) although nothing is wrong with it: %s' % (
                    self.mod, self.name, 'False' if err is None else '%s: %s' % (type(err).__name__, err), wire))

    def describe(self, f):
        if f['kind'] == 'rule':
            return 'a rule is broken: %s' % RULES[(self.mod, self.name)][f['r']]
        return {'drop': '%s is missing', 'blank': '%s is empty', 'type': '%s is of the wrong type', 'twice': '%s is there twice',
                'cut': 'it is cut short%.0s', 'odd': 'it is no object%.0s'}[f['kind']] % f.get('k')

    def wire(self, form, args, flaw):
        """What is sent. The message is made and serialised without the flaw, which is put there afterwards."""
        kind = flaw and flaw['kind']
        if kind == 'rule':
            # made by hand, as the sender might notice
            d = args
        else:
            try:
                d = self.cls(**args).to_dict()
            except Exception as e:
                self.w.flag('flaw', 'not-made', '%s.%s with %s: %s' % (self.mod, self.name, args, e))
                return None
        if form == 'u':
            sp = lambda v: ' '.join(v) if isinstance(v, list) else json.dumps(v) if isinstance(v, dict) else str(v)
            if kind == 'rule':
                pairs = [(k, sp(v)) for k, v in args.items()]
            else:
                pairs = parse_qsl(self.cls(**args).to_urlencoded(), keep_blank_values=True)
            if kind == 'drop':
                pairs = [p for p in pairs if p[0] != flaw['k']]
                self.not_sent({k: v for k, v in args.items() if k != flaw['k']}, flaw)
            elif kind == 'blank':
                pairs = [(k, '') if k == flaw['k'] else (k, v) for k, v in pairs]
            elif kind == 'twice':
                was = dict(pairs)[flaw['k']]
                other = was if flaw['v'] == 'same' else flaw['v']
                if other == '':
                    other = was + 'x'
                pairs.insert(0 if flaw['first'] else len(pairs), (flaw['k'], other))
            if not pairs:
                return None
            return urlencode(pairs)
        if kind == 'drop':
            d.pop(flaw['k'])
        elif kind in ('blank', 'type'):
            d[flaw['k']] = flaw['v']
        elif kind == 'odd':
            d = flaw['v']
        text = json.dumps(d)
        if kind == 'cut' and form == 'j':
            text = text[:int(len(text) * flaw['frac'])]
        if form == 'j':
            return text
        if form == 'w':
            tok = self.jws(text, self.c['key'])
            if kind == 'cut':
                tok = tok[:int(len(tok) * flaw['frac'])]
            return tok
        from cryptojwt.jwe.jwe import JWE
        return JWE(text, alg='RSA-OAEP', enc='A128GCM').encrypt([enc_key()])

    def not_sent(self, args, flaw):
        from oidcmsg.exception import MissingRequiredAttribute
        if (self.name, flaw['k']) in NOTED_LATE:
            return
        msg = self.cls(**args)
        try:
            got = msg.to_urlencoded()
        except MissingRequiredAttribute:
            return
        self.w.flag('flaw', 'sent-flaw', '%s.%s sent although %s: %s' % (self.mod, self.name, self.describe(flaw), got))

    def receive(self, form, wire):
        msg = self.cls()
        if form == 'u':
            msg = msg.deserialize(wire, 'urlencoded')
        elif form == 'j':
            msg = msg.deserialize(wire, 'json')
        elif form == 'w':
            msg = msg.from_jwt(wire, keyjar=self.keyjar())
        else:
            msg = msg.from_jwe(wire, [enc_key()])
        kw = dict(KW.get((self.mod, self.name), {}))
        if self.mod in (SESS, OIDC) and (self.mod, self.name) not in KW:
            if 'id_token' in self.cls.c_param or self.mod == SESS:
                kw = {'iss': 'https://op', 'client_id': 'c', 'aud': 'c'}
        if self.name == 'AuthorizationResponse' and self.mod != DEV:
            kw = {'iss': 'https://op', 'client_id': 'c'} if self.mod == OIDC else {}
        return msg.verify(keyjar=self.keyjar(), skew=0, nonce_storage_time=10 ** 6, **kw)

    def keyjar(self):
        from cryptojwt.key_jar import KeyJar
        iss = self.c['args'].get('iss')
        if self.kj is not None:
            return self.kj
        kj = self.kj = KeyJar()
        keys = {'keys': [fixture(('EC', 14)), fixture(('RSA', 6)), fixture(('oct', 7))]}
        for i in ['', 'https://op', 'c'] + ([iss] if isinstance(iss, str) else []):
            if i not in kj:
                kj.import_jwks(keys, i)
        return kj


def run(env, plan):
    world = World(env, plan, ('flaw',))
    for c in plan['misc']:
        r = Asker(world, c) if 'ask' in c else Sender(world, c)
        world.at(c['at'], r.start)
    finish(world)
    return {'nontrivial': world.verdicts['rejected'] > 0}
