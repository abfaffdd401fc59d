"""
P05: what honest parties send each other arrives, is accepted, and says what was sent.
"""
import json

from sim import core
from checks import pcommon
from checks.pcommon import World
from checks.pcommon import finish
from checks.pcommon import fixture
from checks.pcommon import gen_assert
from checks.pcommon import gen_later
from checks.pcommon import gen_net
from checks.pcommon import gen_session
from checks.pcommon import gen_world
from checks.pcommon import key_of

PROPERTY = 'P05'
RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('1-3 providers and 1-3 clients with skewed and stepped clocks, 1-4 sessions of random flow and options, key '
        'rotations, messages lost, repeated, delayed and reordered but not changed; up to 8 other messages (50 kinds) '
        'relayed over up to 4 parties in random serialisations, signed or encrypted; everything is accepted, '
        'sessions complete, contents are the same at every party; non-trivial: something was verified; distinct by '
        'event log')
REAL = ['oidcmsg messages at all parties', 'cryptojwt']
STUBS = ['network, HTTP, clocks, randomness incl. ECDSA nonces (simulated)']
ASSUMPTIONS = ['numbers and booleans are text in urlencoded messages', 'empty values and lists are left out',
               'clocks differ by less than the skew the parties allow for', 'messages are lost at most twice in a row']
PROBES = ('accepted', 'relayed')
SHRINK = ('misc', 'net', 'rotations', 'clock', 'sessions')
SEC = 10 ** 9

# what the standards say: name -> module, {parameter: kind}, required, kinds of serialisation (url, json, jwt)
# s string, e text of an error, i integer, b boolean, p space separated, l list of strings, d object, m message
S, I, B, P, L, D, E = 's', 'i', 'b', 'p', 'l', 'd', 'e'
OIDC, OAUTH2, DEV, SESS, IDA = ('oidcmsg.oidc', 'oidcmsg.oauth2', 'oidcmsg.oauth2.device_authorization',
                                'oidcmsg.oidc.session', 'oidcmsg.oidc.identity_assurance')
KINDS = [
    (OAUTH2, 'AuthorizationRequest', {'response_type': P, 'client_id': S}, {
        'scope': P, 'redirect_uri': S, 'state': S, 'x': S}, 'ujw'),
    (OAUTH2, 'AuthorizationResponse', {'code': S}, {'state': S, 'x': S}, 'uj'),
    (OAUTH2, 'AuthorizationErrorResponse', {'error': ['invalid_request', 'access_denied', 'server_error',
                                                      'temporarily_unavailable', 'invalid_scope']},
     {'state': S, 'error_uri': S}, 'uj'),
    (OAUTH2, 'TokenErrorResponse', {'error': ['invalid_request', 'invalid_client', 'invalid_grant', 'invalid_scope',
                                              'unauthorized_client', 'unsupported_grant_type']}, {'error_uri': S}, 'uj'),
    (OAUTH2, 'AccessTokenRequest', {'code': S, 'redirect_uri': S}, {'client_id': S, 'client_secret': S, 'state': S}, 'uj'),
    (OAUTH2, 'AccessTokenResponse', {'access_token': S, 'token_type': S}, {
        'expires_in': I, 'refresh_token': S, 'scope': P, 'state': S, 'x': S}, 'ju'),
    (OAUTH2, 'ROPCAccessTokenRequest', {'grant_type': ['password']}, {'username': S, 'password': S, 'scope': P}, 'uj'),
    (OAUTH2, 'CCAccessTokenRequest', {}, {'scope': P}, 'uj'),
    (OAUTH2, 'RefreshAccessTokenRequest', {'refresh_token': S}, {'scope': P, 'client_id': S, 'client_secret': S}, 'uj'),
    (OAUTH2, 'ResourceRequest', {}, {'access_token': S, 'x': S}, 'uj'),
    (OAUTH2, 'ASConfigurationResponse', {'issuer': S, 'response_types_supported': L, 'grant_types_supported': L}, {
        'authorization_endpoint': S, 'scopes_supported': L, 'jwks_uri': S, 'ui_locales_supported': L}, 'jw'),
    (OAUTH2, 'TokenIntrospectionRequest', {'token': S}, {'token_type_hint': S, 'client_id': S}, 'uj'),
    (OAUTH2, 'TokenIntrospectionResponse', {'active': B}, {
        'scope': P, 'client_id': S, 'username': S, 'exp': I, 'iat': I, 'nbf': I, 'sub': S, 'aud': L, 'iss': S, 'jti': S},
     'jw'),
    (OAUTH2, 'TokenExchangeRequest', {'grant_type': S, 'subject_token': S, 'subject_token_type': S}, {
        'resource': L, 'audience': L, 'scope': P, 'actor_token': S, 'actor_token_type': S}, 'uj'),
    (OAUTH2, 'TokenExchangeResponse', {'access_token': S, 'issued_token_type': S, 'token_type': S}, {
        'expires_in': I, 'refresh_token': S, 'scope': P}, 'j'),
    (OAUTH2, 'SecurityEventToken', {'iss': S, 'iat': I, 'jti': S}, {
        'aud': L, 'sub': S, 'exp': I, 'events': D, 'txt': S, 'toe': I}, 'jw'),
    (DEV, 'AuthorizationRequest', {'client_id': S}, {'scope': S}, 'uj'),
    (DEV, 'AuthorizationResponse', {'device_code': S, 'user_code': S, 'verification_uri': S, 'expires_in': I}, {
        'verification_uri_complete': S, 'interval': I}, 'j'),
    (DEV, 'AccessTokenRequest', {'grant_type': S, 'client_id': S, 'code': S, 'redirect_uri': S}, {'device_code': S}, 'uj'),
    (OIDC, 'UserInfoRequest', {}, {'access_token': S}, 'uj'),
    (OIDC, 'OpenIDSchema', {'sub': S}, {
        'name': S, 'given_name': S, 'email': S, 'email_verified': B, 'birthdate': ['1999-12-31', '1980', '0000-02-28'],
        'updated_at': I, 'address': {'street_address': S, 'locality': S, 'country': S}, 'x': S, 'phone_number_verified': B,
        'locale': S}, 'jw'),
    (OIDC, 'RegistrationRequest', {'redirect_uris': L}, {
        'response_types': L, 'grant_types': L, 'application_type': ['native', 'web'], 'contacts': L, 'client_name': S,
        'logo_uri': S, 'jwks_uri': S, 'subject_type': ['public', 'pairwise'], 'default_max_age': I,
        'require_auth_time': B, 'default_acr_values': L, 'request_uris': L, 'post_logout_redirect_uris': L,
        'client_name#sv': S, 'backchannel_logout_session_supported': B,
        'initiate_login_uri': ['https://rp/login', 'https://x/å']}, 'jw'),
    (OIDC, 'RegistrationResponse', {'client_id': S, 'redirect_uris': L}, {
        'client_secret': S, 'client_id_issued_at': I, 'client_secret_expires_at': I, 'contacts': L,
        'default_max_age': I}, 'jw'),
    (OIDC, 'ProviderConfigurationResponse', {
        'issuer': ['https://op.example.com', 'https://op.example.org/a'], 'authorization_endpoint': S, 'jwks_uri': S,
        'response_types_supported': L, 'subject_types_supported': L,
        'id_token_signing_alg_values_supported': [['RS256'], ['ES256', 'RS256']], 'token_endpoint': S}, {
        'userinfo_endpoint': S, 'scopes_supported': [['openid'], ['openid', 'profile'], ['openid', '!', '#x~', 'a[b]']],
        'claims_supported': L, 'claims_parameter_supported': B, 'request_parameter_supported': B,
        'grant_types_supported': L, 'backchannel_logout_supported': B, 'require_request_uri_registration': B}, 'jw'),
    (OIDC, 'JsonWebToken', {}, {'iss': S, 'sub': S, 'aud': L, 'jti': S, 'x': S, 'y': D}, 'jw'),
    (OIDC, 'DiscoveryRequest', {'resource': S, 'rel': S}, {}, 'uj'),
    (OIDC, 'WebFingerRequest', {'resource': S}, {}, 'uj'),
    (OIDC, 'ClaimsRequest', {}, {'userinfo': {'given_name': D, 'x': D}, 'id_token': {'acr': D}}, 'jw'),
    (SESS, 'EndSessionResponse', {}, {'state': S}, 'uj'),
    (SESS, 'CheckIDRequest', {'access_token': S}, {}, 'uj'),
    (IDA, 'PlaceOfBirth', {'country': S, 'locality': S}, {'region': S}, 'jw'),
    (IDA, 'Verifier', {'organization': S, 'txn': S}, {}, 'jw'),
    (IDA, 'Issuer', {'name': S, 'country': S}, {}, 'jw'),
    (OAUTH2, 'NoneResponse', {}, {'state': S}, 'uj'),
    (OIDC, 'AuthorizationErrorResponse', {'error': ['login_required', 'access_denied', 'request_not_supported',
                                                    'interaction_required', 'server_error']},
     {'state': S, 'error_uri': S, 'error_description': E}, 'uj'),
    (OIDC, 'TokenErrorResponse', {'error': ['invalid_client', 'invalid_grant']}, {'error_description': E}, 'j'),
    (OIDC, 'ClientRegistrationErrorResponse', {'error': ['invalid_redirect_uri', 'invalid_client_metadata']}, {
        'error_description': E}, 'j'),
    (OIDC, 'UserInfoErrorResponse', {'error': ['invalid_schema', 'invalid_request', 'invalid_token',
                                               'insufficient_scope']}, {'error_description': E}, 'uj'),
    (OIDC, 'RefreshAccessTokenRequest', {'refresh_token': S}, {'scope': P, 'client_id': S}, 'uj'),
    (OIDC, 'AddressClaim', {}, {'formatted': S, 'street_address': S, 'locality': S, 'region': S, 'postal_code': S,
                                'country': S}, 'ujw'),
    (OIDC, 'JRD', {'links': [[{'rel': 'x'}], [{'rel': 'http://openid.net/specs/connect/1.0/issuer', 'href': 'https://å/'},
                                              {'rel': 'y', 'type': 'a b'}]]}, {'subject': S, 'aliases': L}, 'jw'),
    (OIDC, 'Link', {'rel': S}, {'href': S, 'type': S}, 'jw'),
    (OIDC, 'ResourceRequest', {}, {'access_token': S, 'x': S}, 'uj'),
    (IDA, 'Provider', {'name': S}, {'street_address': S, 'country': S}, 'jw'),
    (IDA, 'IdentityAssuranceClaims', {'sub': S}, {
        'nationalities': S, 'title': S, 'birth_family_name': S, 'place_of_birth': {'country': S, 'locality': S},
        'email_verified': B}, 'jw'),
    (IDA, 'QES', {'type': ['qes'], 'issuer': S, 'serial_number': S, 'created_at': ['2020-10-01T12:00:00+0200']}, {
        'x': S}, 'jw'),
    (IDA, 'UtilityBill', {'type': ['utility_bill'], 'provider': {'name': S, 'country': S, 'region': S}}, {
        'date': ['2020-10-01T12:00:00+0000']}, 'jw'),
    (IDA, 'Document', {'type': S, 'number': S, 'issuer': [{'name': 'å', 'country': 'DE'}],
                       'date_of_issuance': ['2020-10-01T12:00:00+0000'], 'date_of_expiry': ['2021-10-01T12:00:00+0530']}, {
        'x': S}, 'jw'),
    (IDA, 'Evidence', {'type': ['qes'], 'issuer': S, 'serial_number': S, 'created_at': [1600000000]}, {}, 'jw'),
    (IDA, 'Evidence', {'type': ['id_document'], 'method': S, 'verifier': [{'organization': 'å', 'txn': 'x y'}]}, {
        'time': ['2020-10-01T12:00:00+0200'], 'document': [
            {'type': 'idcard', 'number': '53', 'issuer': {'name': 'å', 'country': 'DE'},
             'date_of_issuance': '2020-10-01T12:00:00+0000', 'date_of_expiry': '2021-10-01T12:00:00+0530'}], 'x': S}, 'jw'),
    (IDA, 'Evidence', {'type': ['utility_bill'], 'provider': [{'name': 'å', 'street_address': 'x'}]}, {
        'date': ['2020-10-01T12:00:00+0000'], 'x': S}, 'jw'),
    (IDA, 'IdDocument', {'type': ['id_document'], 'method': S, 'verifier': [{'organization': 'å', 'txn': 'x y'}]}, {
        'time': ['2020-10-01T12:00:00+0200'], 'document': [
            {'type': 'idcard', 'number': '53', 'issuer': {'name': 'å', 'country': 'DE'},
             'date_of_issuance': '2020-10-01T12:00:00+0000', 'date_of_expiry': '2021-10-01T12:00:00+0530'}], 'x': S}, 'jw'),
    (IDA, 'VerificationElement', {'trust_framework': S}, {
        'time': ['2020-10-01T12:00:00+0200'], 'verification_process': S,
        'evidence': [[{'type': 'x'}], [{'type': 'qes', 'issuer': 'å'}, {'a': {'b': [1]}}]]}, 'jw'),
    (IDA, 'VerificationElementRequest', {'trust_framework': S}, {
        'time': [None, '2020-10-01T12:00:00+0200'], 'verification_process': [None, 'x'],
        'evidence': [None, [{'type': 'qes'}]]}, 'jw'),
    (IDA, 'VerifiedClaimsRequest', {'verification': [{'trust_framework': None}, {'trust_framework': 'x', 'time': None},
                                                      {'trust_framework': 'x', 'time': {'max_age': 63113852}}]}, {
        'claims': [None, {'given_name': None}, {'given_name': {'essential': True, 'purpose': 'for us'}}]}, 'jw'),
    (IDA, 'IDAClaimsRequest', {}, {
        'userinfo': [{'given_name': None, 'verified_claims': {'verification': {'trust_framework': None}, 'claims': {
            'birthdate': None}}}], 'id_token': {'acr': D},
        'verified_claims': [{'verification': {'trust_framework': None}, 'claims': {'given_name': None}}]}, 'jw'),
    ('oidcmsg.message', 'Message', {}, {'a': S, 'b': S, 'c': I, 'd': B, 'e': L, 'f': D}, 'jw'),
]
PERSON = {'family_name': S, 'middle_name': S, 'nickname': S, 'preferred_username': S, 'profile': S, 'picture': S, 'website': S,
          'gender': S, 'zoneinfo': S, 'phone_number': S}
CLIENT = {k: S for k in (
    'client_uri', 'policy_uri', 'tos_uri', 'sector_identifier_uri', 'id_token_signed_response_alg',
    'userinfo_signed_response_alg', 'userinfo_encrypted_response_alg', 'request_object_signing_alg',
    'request_object_encryption_alg', 'token_endpoint_auth_method', 'frontchannel_logout_uri', 'backchannel_logout_uri',
    'organization_name')}
CLIENT.update({'jwks': [{'keys': []}, {'keys': [{'kty': 'oct', 'k': 'å'}]}], 'frontchannel_logout_session_required': B,
               'federation_type': L, 'token_endpoint_auth_signing_alg': ['RS256', 'ES256']})
EXTRA = {
    (OAUTH2, 'AuthorizationResponse'): {'iss': S, 'client_id': S},
    (OAUTH2, 'AuthorizationErrorResponse'): {'error_description': E},
    (OAUTH2, 'TokenErrorResponse'): {'error_description': E},
    (OAUTH2, 'ASConfigurationResponse'): {
        'token_endpoint': S, 'registration_endpoint': S, 'response_modes_supported': L,
        'token_endpoint_auth_methods_supported': L, 'token_endpoint_auth_signing_alg_values_supported': L,
        'service_documentation': S, 'op_policy_uri': S, 'op_tos_uri': S, 'revocation_endpoint': S,
        'introspection_endpoint': S},
    (OAUTH2, 'TokenIntrospectionRequest'): {'client_assertion_type': S, 'client_assertion': S},
    (OAUTH2, 'TokenIntrospectionResponse'): {'token_type': S},
    (OAUTH2, 'TokenExchangeRequest'): {'requested_token_type': S},
    (DEV, 'AccessTokenRequest'): {
        'client_secret': S, 'state': S, 'client_assertion': S,
        'client_assertion_type': ['urn:ietf:params:oauth:client-assertion-type:jwt-bearer']},
    (OIDC, 'OpenIDSchema'): dict(PERSON, **{
        '_claim_names': [{'email': 'src1'}], '_claim_sources': [{'src1': {'endpoint': 'https://å/', 'access_token': 'x'}}]}),
    (OIDC, 'RegistrationRequest'): CLIENT,
    (OIDC, 'RegistrationResponse'): dict(CLIENT, **{
        'response_types': L, 'grant_types': L, 'application_type': ['native', 'web'], 'client_name': S, 'logo_uri': S,
        'jwks_uri': S, 'subject_type': ['public', 'pairwise'], 'require_auth_time': B, 'default_acr_values': L,
        'request_uris': L, 'post_logout_redirect_uris': L, 'backchannel_logout_session_supported': B}),
    (OIDC, 'ProviderConfigurationResponse'): dict(
        {k: S for k in ('registration_endpoint', 'service_documentation', 'op_policy_uri', 'op_tos_uri', 'check_session_iframe',
                        'end_session_endpoint')},
        **{k: L for k in (
            'response_modes_supported', 'acr_values_supported', 'id_token_encryption_alg_values_supported',
            'id_token_encryption_enc_values_supported', 'userinfo_signing_alg_values_supported',
            'userinfo_encryption_alg_values_supported', 'userinfo_encryption_enc_values_supported',
            'request_object_signing_alg_values_supported', 'request_object_encryption_alg_values_supported',
            'request_object_encryption_enc_values_supported', 'token_endpoint_auth_methods_supported',
            'token_endpoint_auth_signing_alg_values_supported', 'display_values_supported', 'claim_types_supported',
            'claims_locales_supported', 'ui_locales_supported')},
        **{k: B for k in (
            'request_uri_parameter_supported', 'frontchannel_logout_supported', 'frontchannel_logout_session_supported',
            'backchannel_logout_session_supported')}),
    (OIDC, 'JsonWebToken'): {'exp': [4000000000, 2 ** 40], 'nbf': [1, 10 ** 9], 'iat': [1, 10 ** 9]},
    (OIDC, 'WebFingerRequest'): {'rel': S},
    (OIDC, 'TokenErrorResponse'): {'error_uri': S},
    (OIDC, 'ClientRegistrationErrorResponse'): {'error_uri': S},
    (OIDC, 'UserInfoErrorResponse'): {'error_uri': S},
    (OIDC, 'RefreshAccessTokenRequest'): {'client_secret': S},
    (OIDC, 'JRD'): {'properties': [{'http://x/': 'å', 'y': None}], 'expires': S},
    (OIDC, 'Link'): {'titles': [{'en': 'x', 'sv': 'å'}], 'properties': [{'http://x/': 'å', 'y': None}]},
    (IDA, 'Provider'): {'formatted': S, 'locality': S, 'region': S, 'postal_code': S},
    (IDA, 'IdentityAssuranceClaims'): dict(PERSON, **{
        'name': S, 'given_name': S, 'email': S, 'birthdate': ['1999-12-31'], 'locale': S, 'phone_number_verified': B,
        'updated_at': I, 'birth_given_name': S, 'birth_middle_name': S, 'salutation': S}),
}
for _k in KINDS:
    _k[3].update(EXTRA.get(_k[:2], {}))
DEFAULTS = {('oidcmsg.oauth2', 'AccessTokenRequest'): {'grant_type': 'authorization_code'},
            (OAUTH2, 'CCAccessTokenRequest'): {'grant_type': 'client_credentials'},
            (OAUTH2, 'RefreshAccessTokenRequest'): {'grant_type': 'refresh_token'},
            (OIDC, 'RefreshAccessTokenRequest'): {'grant_type': 'refresh_token'},
            (OAUTH2, 'ASConfigurationResponse'): {'version': '3.0'},
            (OIDC, 'RegistrationRequest'): {'application_type': 'web', 'response_types': ['code']},
            (OIDC, 'WebFingerRequest'): {'rel': 'http://openid.net/specs/connect/1.0/issuer'},
            (OIDC, 'ProviderConfigurationResponse'): {
                'version': '3.0', 'token_endpoint_auth_methods_supported': ['client_secret_basic'],
                'claims_parameter_supported': False, 'request_parameter_supported': False,
                'request_uri_parameter_supported': True, 'require_request_uri_registration': True,
                'grant_types_supported': ['authorization_code', 'implicit']}}

STRINGS = ['x', 'a b', 'å/ä&ö=?', 'https://rp.example.org/cb?a=1&b=2#f', '100%', '+', '"quoted"', '{"a": 1}', '0', 'None',
           'a\nb', ' lead', 'trail ', '\U0001f600', 'a,b', '\\', '%41', 'true', '[]', "it's", '\x7f', '日本', 'a\u00a0\u2028b']
WORDS = ['openid', 'profile', 'a', 'https://x/y', 'code', 'id_token', 'å', '1', 'a\u00a0b', '\u3000', 'x\ty']


def value(rng, kind):
    if isinstance(kind, list):
        return rng.choice(kind)
    if isinstance(kind, dict):
        ks = [k for k in kind if rng.random() < 0.6] or list(kind)[:1]
        return {k: value(rng, kind[k]) for k in ks}
    if kind == S:
        return rng.choice(STRINGS)
    if kind == E:
        return rng.choice(['x', "It's (not) allowed: 100% {a} [b] ~^|", 'a+b&c=d', '!#$%*,-./:;<>?@_`'])
    if kind == I:
        return rng.choice([1, 60, 3600, 1600000000, 2 ** 31, 2 ** 40])
    if kind == B:
        return rng.random() < 0.5
    if kind in (P, L):
        return [rng.choice(WORDS if kind == P else STRINGS) for _ in range(rng.choice([1, 1, 2, 3]))]
    if kind == D:
        return rng.choice([{'essential': True}, {'value': 'å'}, {'values': ['a', 'b']}, {}, {'a': {'b': [1, 2, {'c': None}]}}])
    raise core.HarnessError(kind)


def base(k):
    """The name without a language"""
    return k.split('#')[0]


def tag(rng, req, opt, args):
    """Some parameters in more languages"""
    for k in rng.sample(sorted(args), min(len(args), rng.choice([1, 1, 2]))):
        v = req.get(k, opt.get(k))
        if '#' not in k and (isinstance(v, (list, dict)) or v in (S, I, B, L, P, D)):
            args['%s#%s' % (k, rng.choice(['sv', 'ja-Hira-JP', 'en']))] = value(rng, v)


EDITS = ['move', 'drop', 'add', 'weed', 'blanks', 'update', 'replace', 'defaults', 'look', 'other', 'schema']


def gen_misc(rng, i, horizon):
    n = rng.randrange(len(KINDS))
    _, _, req, opt, forms = KINDS[n]
    args = {k: value(rng, v) for k, v in req.items()}
    share = min(0.5, rng.choice([4, 4, 12]) / (len(opt) or 1))
    for k, v in opt.items():
        if rng.random() < share:
            args[k] = 0 if v == I and rng.random() < 0.2 else value(rng, v)
    if not args:
        args[list(opt)[0]] = value(rng, opt[list(opt)[0]]) if opt else None
        args = {k: v for k, v in args.items() if v is not None}
    if rng.random() < 0.2:
        tag(rng, req, opt, args)
    for k, v in args.items():
        # lists are separated by spaces there
        if 'u' in forms and (req.get(base(k)) == L or opt.get(base(k)) == L):
            args[k] = [x.replace(' ', '_').replace('\n', '_') or 'x' for x in v]
    hops = [{'as': rng.choice(forms + ('e' if 'w' in forms and rng.random() < 0.3 else '')), 'ns': rng.randrange(SEC * 10),
             'alg': rng.choice(['ES256', 'RS256', 'HS256', 'none']), 'again': int(rng.random() < 0.2),
             'how': rng.choice(['get', 'frag', 'body', 'plain', 'serialize']), 'copy': rng.choice([0, 0, 1]),
             'edit': [[rng.choice(EDITS), rng.randrange(1000)] for _ in range(rng.choice([0, 0, 0, 1, 3]))]}
            for _ in range(rng.choice([1, 2, 3, 4]))]
    return {'id': i, 'kind': n, 'args': args, 'hops': hops, 'at': rng.randrange(horizon)}


def claim(rng, v):
    """What can be asked about a claim"""
    res = rng.choice([None, {}, {'essential': rng.random() < 0.5}, {'value': v}, {'values': [v, v]}])
    if res is not None and rng.random() < 0.3:
        res = dict(res, purpose=rng.choice(['for us', "It's (not): 100% {a} [b]", 'x' * 300, 'abc']))
    return res


def gen_claims(rng, i, horizon):
    """A request for claims, put together with ClaimsConstructor"""
    person = {'name': 'å', 'email': 'a@b', 'email_verified': True, 'updated_at': 5, 'birthdate': '1999-12-31', 'x': 'y'}
    more = {'birth_family_name': 'ö', 'title': 'x', 'given_name': '日'}

    def some(of):
        return {k: claim(rng, v) for k, v in of.items() if rng.random() < 0.4}

    def verified():
        ver = {'trust_framework': rng.choice([None, 'de_aml'])}
        if rng.random() < 0.5:
            ver['time'] = rng.choice([None, {'max_age': 63113852}])
        if rng.random() < 0.5:
            ver['verification_process'] = rng.choice([None, 'x'])
        if rng.random() < 0.5:
            ver['evidence'] = rng.choice([None, [{'type': 'qes'}], [{'type': 'qes', 'issuer': 'å'}, {'type': 'id_document'}]])
        return {'verification': ver, 'claims': some(dict(person, **more)) or None}

    args = {}
    if rng.random() < 0.7:
        args['userinfo'] = some(person)
        if rng.random() < 0.6:
            args['userinfo']['verified_claims'] = verified()
    if rng.random() < 0.4:
        args['id_token'] = some(person)
    if rng.random() < 0.4 or not args:
        args['verified_claims'] = verified()
    hops = [{'as': rng.choice('jwe'), 'ns': rng.randrange(SEC * 10), 'alg': rng.choice(['ES256', 'RS256', 'HS256', 'none']),
             'again': int(rng.random() < 0.2), 'how': 'body', 'copy': rng.choice([0, 0, 1])} for _ in range(rng.choice([1, 1, 2, 3]))]
    kind = [n for n, k in enumerate(KINDS) if k[1] == 'IDAClaimsRequest'][0]
    return {'id': i, 'kind': kind, 'args': args, 'hops': hops, 'at': rng.randrange(horizon),
            'made': rng.choice(['class', 'instance', 'name'])}


def gen(rng, tier, index):
    plan = {}
    gen_world(rng, plan)
    for n in plan['ops'] + plan['rps']:
        n['skew_ns'] = rng.randrange(-100, 100) * SEC
    n = rng.choice([0, 1, 1, 2, 3])
    plan['sessions'] = [gen_session(rng, plan, i, careful=0.7) for i in range(n)]
    for s in plan['sessions']:
        s['kw'] = [k for k in s['kw'] if k != 'skew'] + ['skew']
        s['skew'] = 300
        s['lifetime'] = rng.choice([600, 3600])
        s['storage'] = max(s['storage'], 600)
        s['scope'] = rng.choice([[], ['profile'], ['https://x/y', 'email']])
        s['params'] = {k: v for k, v in (
            ('max_age', rng.choice([0, 3600])), ('login_hint', rng.choice(STRINGS)), ('ui_locales', ['en', 'sv']),
            ('acr_values', ['1']), ('prompt', rng.choice([['login', 'consent'], ['consent'], ['none'], ['login']])),
            ('display', rng.choice(['page', 'popup', 'touch', 'wap'])), ('x', 'å&=+'), ('claims', rng.choice([
                {'userinfo': {'name': None, 'email': {'essential': True}}}, {'id_token': {'acr': {'values': ['1', 'å']}, 'x': {}}},
                {'userinfo': {'name#sv': {'value': 'a b'}}, 'id_token': {'auth_time': {'essential': False}}}])),
            ('registration', rng.choice([{'redirect_uris': ['https://a/?b=c&d', 'https://b'], 'client_name': 'å'},
                                         {'client_name#sv': ' x'}])),
            ('claims_locales', ['en-GB', 'sv']), ('response_mode', 'form_post')) if rng.random() < 0.3}
        if rng.random() < 0.2:
            s['scope'] = s['scope'] + ['offline_access']
            s['params']['prompt'] = rng.choice([['consent'], ['login', 'consent'], ['consent', 'select_account']])
        if rng.random() < 0.3:
            s['tok'] = rng.choice([{'azp': 'self'}, {'aud': ['self', 'x'], 'azp': 'self'}, {'aud_str': 1},
                                   {'claims': {'name': 'å ä', 'email_verified': True, 'acr': '2', 'amr': ['pwd', 'otp'],
                                               'auth_time': 1600000000}}])
        if rng.random() < 0.4:
            s['assert'] = gen_assert(rng)
            s['assert'].update({'exp': 600, 'skew': 300})
        if rng.random() < 0.5:
            s['later'] = [gen_later(rng, s['alg']) for _ in range(rng.choice([1, 2]))]
            for c in s['later']:
                c['kw'] = [k for k in c['kw'] if k != 'skew'] + ['skew']
                c['skew'] = 300
        if rng.random() < 0.3:
            s['hint'] = 1
            s['hint_enc'] = rng.randrange(2)
        if rng.random() < 0.3:
            s['ro'] = {'alg': rng.choice(['ES256', 'HS256', 'none']), 'jti': rng.randrange(2), 'lifetime': 3600,
                       'enc': rng.randrange(2)}
        if rng.random() < 0.25:
            s['jar'] = [{'cls': rng.choice(['jar', 'par']), 'after': rng.randrange(10 ** 9),
                         'alg': rng.choice(['ES256', 'HS256', 'none']), 'bare': int(rng.random() < 0.2), 'outer': {},
                         'inner': {k: v for k, v in (('nonce', 'å'), ('scope', 'openid email'), ('x', 'a b&c'),
                                                     ('code_challenge', 'abc')) if rng.random() < 0.4},
                         'enc': int(rng.random() < 0.3)}]
    plan['misc'] = [gen_misc(rng, i, 60 * SEC) for i in range(rng.choice([0, 2, 4, 8] if n else [3, 5, 8]))]
    if rng.random() < 0.3:
        plan['misc'].append(gen_claims(rng, len(plan['misc']), 60 * SEC))
    if plan['sessions']:
        gen_net(rng, plan, rng.choice([0, 1, 3, 5]), far=20)
        if rng.random() < 0.3:
            plan['rotations'] = [{'op': rng.randrange(3), 'at': rng.randrange(40 * SEC), 'key': rng.choice([
                ['EC', 12], ['EC', 13], ['RSA', 6]]), 'drop': rng.randrange(2), 'lag': 0}]
    if rng.random() < 0.3:
        plan['clock'] = [{'at': rng.randrange(40 * SEC), 'node': rng.randrange(6), 'ns': rng.choice([-1, 1]) * 50 * SEC}]
    return plan


class Relay:
    """A message that is passed on from party to party, each of which parses, verifies and serialises it"""

    def __init__(self, world, c):
        import importlib
        self.w = world
        self.c = c
        mod, name, req, opt, _ = KINDS[c['kind']]
        self.cls = getattr(importlib.import_module(mod), name)
        self.name = '%s.%s' % (mod, name)
        self.want = dict(DEFAULTS.get((mod, name), {}), **c['args'])
        self.spec = dict(req, **opt)
        self.hop = 0

    def start(self):
        args = self.c['args']
        if 'made' in self.c:
            args = self.construct()
            if args is None:
                return
        msg = self.cls(**args)
        self.compare('made', msg, True)
        self.send(msg)

    def construct(self):
        from oidcmsg.oidc import OpenIDSchema
        from oidcmsg.oidc import identity_assurance as ida
        w = self.w
        how = self.c['made']
        w.on(w.rps[0])

        def con(cls, asked):
            c = ida.ClaimsConstructor(cls if how == 'class' else cls() if how == 'instance' else '%s.%s' % (
                cls.__module__, cls.__name__))
            for k, v in asked.items():
                if k == 'verified_claims':
                    c[k] = con(ida.VerifiedClaims, v)
                elif k == 'verification':
                    c[k] = con(ida.VerificationElement, v)
                elif k == 'claims' and v is not None:
                    c[k] = con(ida.IdentityAssuranceClaims, v)
                else:
                    c[k] = v
            if c.to_dict() != asked or json.loads(c.to_json()) != asked:
                w.flag('content', 'content', 'claims constructed are %s, should be %s' % (c.to_dict(), asked))
            return c
        try:
            return {k: con(ida.VerifiedClaims if k == 'verified_claims' else OpenIDSchema, v).to_dict()
                    for k, v in self.c['args'].items()}
        except Exception as e:
            if isinstance(e, (core.HarnessError, core.Violation)):
                raise
            w.flag('complete', 'not-sent', 'claims %s can not be asked for: %s: %s' % (self.c['args'], type(e).__name__, e))
            return None

    def send(self, msg):
        w = self.w
        if self.hop == len(self.c['hops']):
            return
        h = self.c['hops'][self.hop]
        self.hop += 1
        nodes = w.ops + w.rps
        src, dst = nodes[(self.c['id'] + self.hop) % len(nodes)], nodes[(self.c['id'] + self.hop + 1) % len(nodes)]
        w.on(src)
        try:
            if h['copy']:
                msg = msg.copy()
            for how, n in h.get('edit', ()):
                msg = self.edit(msg, how, n)
                self.compare('after ' + how, msg, True)
            form, wire = self.serialise(h, msg)
            if h['again'] and form != 'e' and self.serialise(h, msg)[1] != wire:
                w.flag('content', 'content', '%s: serialised differently the second time' % self.name)
        except Exception as e:
            if isinstance(e, (core.HarnessError, core.Violation)):
                raise
            w.flag('complete', 'not-sent', '%s with %s can not be sent (%s): %s: %s' % (
                self.name, msg.to_dict(), h['as'], type(e).__name__, e))
            return
        w.sim.event('relay', self.name, self.hop, form, wire)
        w.after(h['ns'], lambda: self.receive(h, form, wire, dst))

    def defaults(self):
        for k, v in DEFAULTS.get(tuple(self.name.rsplit('.', 1)), {}).items():
            self.want.setdefault(k, v)

    def edit(self, msg, how, n):
        """What parties do with messages other than passing them on"""
        want = self.want
        known = self.cls.c_param
        new = sorted(k for k in want if k not in known)

        def same(what, a, b):
            if a != b:
                self.w.flag('content', 'content', '%s: %s is %r, should be %r' % (self.name, what, a, b))

        self.w.sim.probe('edit-' + how)
        if how == 'move':
            # out and in again
            k = sorted(want)[n % len(want)]
            v = msg[k]
            del msg[k]
            same('having lost %s' % k, (k in msg, msg.get(k, n), len(msg)), (False, n, len(want) - 1))
            msg[k] = v
        elif how == 'drop':
            ks = [k for k in new if k not in self.spec]
            if ks:
                del msg[ks[n % len(ks)]]
                del want[ks[n % len(ks)]]
        elif how == 'add':
            msg['x_%d' % (n % 3)] = want['x_%d' % (n % 3)] = ['å b', '0', 'x', 'a+b&c=d', '\U0001f600'][n % 5]
        elif how == 'weed' and not any('#' in k or k in self.spec for k in new):
            msg.weed()
            self.want = {k: v for k, v in want.items() if k not in new}
        elif how == 'blanks':
            if all(v and v not in ('0', 'False') for v in want.values()):
                msg['x_9'] = ''
                msg.rm_blanks()
        elif how in ('update', 'replace'):
            msg = dict(msg.items()) if n % 2 else msg
            other = self.cls()
            if how == 'replace':
                for k in sorted(want)[:1 + n % 3]:
                    other._dict[k] = 'something else'
            other.update(msg)
            self.defaults()
            msg = other
        elif how == 'defaults':
            msg.set_defaults()
            self.defaults()
        elif how == 'look':
            same('extra()', sorted(msg.extra()), new)
            same('only_extras()', msg.only_extras(), len(new) == len(want))
            same('keys()', sorted(msg.keys()), sorted(want))
            same('items()', sorted(k for k, _ in msg.items()), sorted(want))
            same('iteration', sorted(msg), sorted(want))
            same('len()', (len(msg), len(list(msg.values()))), (len(want), len(want)))
            c = msg.copy()
            same('the copy', (c == msg, c != msg), (True, False))
            k = sorted(want)[n % len(want)]
            c._dict[k] = 'something else'
            same('the changed copy', c == msg, msg.get(k) == 'something else')
        elif how == 'other':
            # what the class does not know is passed to another message
            from oidcmsg.message import Message, add_non_standard
            c = Message()
            add_non_standard(c, msg)
            same('what add_non_standard() adds', {k: c.get(k) for k in c.keys()}, {k: msg[k] for k in new})
            import importlib
            mod, name = KINDS[n % len(KINDS)][:2]
            c = getattr(importlib.import_module(mod), name)(x_0='own', x_8='own')
            was = {k: c[k] for k in c.keys()}
            add_non_standard(c, msg)
            same('what add_non_standard() adds', {k: c.get(k) for k in c.keys()},
                 dict(was, **{k: msg[k] for k in new if k not in c.c_param}))
        elif how == 'schema':
            from oidcmsg.message import by_schema
            same('by_schema()', sorted(by_schema(self.cls, **{k: msg[k] for k in msg})),
                 sorted(k for k in want if k not in new))
        return msg

    def key(self, alg):
        return {'ES256': ('EC', 14), 'RS256': ('RSA', 6), 'HS256': ('oct', 7)}.get(alg)

    def serialise(self, h, msg):
        if h['as'] == 'u':
            if h['how'] == 'body':
                return 'u', msg.to_urlencoded()
            if h['how'] == 'serialize':
                return 'u', msg.serialize('urlencoded')
            if h['how'] == 'plain':
                return 'u', msg.request('https://x/y').split('?', 1)[1]
            url = msg.request('https://x/y' if h['how'] == 'frag' and h['ns'] % 2 else 'https://x/y?z',
                              fragment_enc=h['how'] == 'frag')
            return 'u', url.split('#' if h['how'] == 'frag' else '?z&', 1)[1]
        if h['as'] == 'j':
            return 'j', msg.serialize('json') if h['how'] == 'serialize' else msg.to_json()
        if h['as'] == 'w':
            spec = self.key(h['alg'])
            return 'w', msg.copy().to_jwt(key=[key_of(spec)] if spec else None, algorithm=h['alg'])
        return 'e', msg.to_jwe([enc_key()], enc='A128GCM', alg='RSA-OAEP')

    def factory(self):
        from oidcmsg import oauth2
        from oidcmsg import oidc
        mod, name = self.name.rsplit('.', 1)
        if mod in (OIDC, OAUTH2):
            got = {OIDC: oidc, OAUTH2: oauth2}[mod].factory(name)
            if type(got) is not self.cls:
                self.w.flag('content', 'content', 'factory gave a %r for %s' % (type(got), self.name))

    def receive(self, h, form, wire, dst):
        from cryptojwt.key_jar import KeyJar
        w = self.w
        w.on(dst)
        try:
            self.factory()
            if form == 'u':
                msg = self.cls().deserialize(wire, 'urlencoded')
            elif form == 'j':
                msg = self.cls().deserialize(wire, 'json')
            elif form == 'w':
                kj = KeyJar()
                kj.import_jwks({'keys': [fixture(('EC', 14)), fixture(('RSA', 6)), fixture(('oct', 7))]}, '')
                kj.import_jwks({'keys': [fixture(('EC', 14)), fixture(('RSA', 6)), fixture(('oct', 7))]},
                               str(self.want.get('iss', '')))
                msg = self.cls().from_jwt(wire, keyjar=kj)
            else:
                msg = self.cls().from_jwe(wire, [enc_key()])
            ok = msg.verify()
        except Exception as e:
            if isinstance(e, core.HarnessError):
                raise
            w.flag('complete', 'rejected', '%s rejected (%s: %s) although nothing is wrong with it: %s' % (
                self.name, type(e).__name__, e, wire))
            return
        if not ok:
            w.flag('complete', 'rejected', '%s rejected (%r) although nothing is wrong with it: %s' % (self.name, ok, wire))
            return
        w.sim.probe('relayed')
        w.verdicts['accepted'] += 1
        from oidcmsg.oauth2 import is_error_message
        if is_error_message(msg) is not ('error' in self.want):
            w.flag('content', 'content', '%s is %sthought to be an error: %s' % (
                self.name, 'not ' if 'error' in self.want else '', wire))
        if form == 'u':
            # now they are text
            self.want = {k: str(v) if isinstance(v, (int, bool)) else v for k, v in self.want.items()}
        self.defaults()
        self.compare('received as %s' % form, msg, False)
        self.send(msg)

    def compare(self, what, msg, first):
        got = msg.to_dict()
        if not first and self.name == OIDC + '.RegistrationRequest':
            for k in ('id_token_encrypted_response', 'userinfo_encrypted_response', 'request_object_encryption'):
                if k + '_alg' in self.want:
                    self.want.setdefault(k + '_enc', 'A128CBC-HS256')
        for k in sorted(set(got) ^ set(self.want)):
            self.w.flag('content', 'content', '%s %s: %s is %s' % (
                self.name, what, k, 'new' if k in got else 'gone'))
        for k in sorted(set(got) & set(self.want)):
            a, b = self.want.get(k), got.get(k)
            kind = self.spec.get(k, self.spec.get(base(k)))
            if kind == P or kind == L:
                if msg.get(k) != a:
                    self.w.flag('content', 'content', '%s %s: %s is %r, should be %r' % (self.name, what, k, msg.get(k), a))
                continue
            if isinstance(a, dict) and isinstance(b, str):
                try:
                    b = json.loads(b)
                except ValueError:
                    pass
            if isinstance(a, str) and isinstance(b, int) and not isinstance(b, bool):
                b = str(b)  # where it is known to be a number
            if a != b or type(a) is not type(b):
                self.w.flag('content', 'content', '%s %s: %s is %r, should be %r' % (self.name, what, k, b, a))


def enc_key():
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    return key_from_jwk_dict(dict(fixture(('RSA', 6)), use='enc'))


def run(env, plan):
    world = World(env, plan, ('complete', 'content'))
    for c in plan['misc']:
        r = Relay(world, c)
        world.at(c['at'], r.start)
    return finish(world, liveness=True)


assert pcommon
