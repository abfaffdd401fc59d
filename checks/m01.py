"""
M01: what one thread does with its messages is nothing another thread, or the next message, can notice.
"""
import copy
import importlib
import json
import os
import sys

from checks.p05 import DEFAULTS
from checks.p05 import KINDS
from checks.p05 import enc_key
from checks.p05 import gen_misc
from checks.pcommon import fixture
from checks.pcommon import key_of
from sim.core import HarnessError
from sim.core import SimStuck
from sim.core import Violation

PROPERTY = 'M01'
RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('2-4 threads of one process, pre-empted between lines of oidcmsg at 1-14 randomly chosen points or at every one '
        'with some probability, each make, parse, verify, serialise, copy and change up to 12 messages of the same few '
        'kinds (with the same contents), some also read a message they share; what each of them gets is what it gets in a '
        'process of its own, the tables of the message classes are what they were; non-trivial: at least one switch inside an '
        'operation; distinct by event log')
REAL = ['oidcmsg messages', 'cryptojwt']
STUBS = ['thread scheduling, clock, randomness incl. ECDSA nonces (simulated)']
ASSUMPTIONS = ['a message that is changed belongs to one thread', 'threads are pre-empted between lines of oidcmsg, not '
               'within libraries']
PROBES = ('switch', 'changed', 'shared')
SHRINK = ('threads.*', 'preempt', 'pool')
SRC = os.sep + 'oidcmsg' + os.sep

# what is wrong on purpose, per class: verification has to fail every time
WRONG = [('oidcmsg.oauth2', 'AuthorizationErrorResponse', {'error': 'no_such_error'}),
         ('oidcmsg.oidc', 'AuthorizationErrorResponse', {'error': 'no_such_error'}),
         ('oidcmsg.oauth2', 'TokenErrorResponse', {'error': 'login_required'}),
         ('oidcmsg.oauth2', 'AccessTokenRequest', {'code': 'x'}),
         ('oidcmsg.oidc', 'RegistrationRequest', {'redirect_uris': ['https://x/'], 'application_type': 'x'}),
         ('oidcmsg.oidc', 'UserInfoErrorResponse', {'error': 'x'}),
         ('oidcmsg.oidc', 'AuthorizationRequest', {'response_type': ['code'], 'client_id': 'c', 'redirect_uri': 'https://x/',
                                                   'scope': ['openid'], 'display': 'x'}),
         ('oidcmsg.oidc.session', 'EndSessionRequest', {'post_logout_redirect_uri': 'https://x/'})]
RIGHT = [('oidcmsg.oidc', 'AuthorizationErrorResponse', {'error': 'login_required', 'state': 'x'}),
         ('oidcmsg.oidc', 'AuthorizationRequest', {
             'response_type': ['code', 'id_token'], 'client_id': 'c', 'redirect_uri': 'https://x/', 'nonce': 'n',
             'scope': ['openid', 'profile'], 'display': 'page', 'prompt': ['login', 'consent'],
             'claims': {'id_token': {'acr': None}}}),
         ('oidcmsg.oidc', 'IdToken', {'iss': 'https://op', 'sub': 's', 'aud': ['c'], 'exp': 1600003600,
                                      'iat': 1600000000, 'nonce': 'n'}),
         ('oidcmsg.oidc', 'OpenIDRequest', {'response_type': ['code'], 'client_id': 'c', 'redirect_uri': 'https://x/',
                                            'scope': ['openid'], 'state': 's'}),
         ('oidcmsg.oidc.session', 'LogoutToken', {
             'iss': 'https://op', 'aud': ['c'], 'iat': 1600000000, 'jti': 'j', 'sub': 's', 'sid': 'x',
             'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}),
         ('oidcmsg.oauth2', 'JWTSecuredAuthorizationRequest', {'client_id': 'c', 'response_type': ['code'], 'request': 'x'}),
         ('oidcmsg.oidc', 'AuthnToken', {'iss': 'c', 'sub': 'c', 'aud': ['https://op'], 'jti': 'j', 'exp': 1600000600})]
STEPS = ['new', 'new', 'new', 'parse', 'parse', 'verify', 'verify', 'ser', 'ser', 'dump', 'copy', 'change', 'change',
         'defaults', 'rm_blanks', 'weed', 'lax', 'jwt', 'eq', 'pack', 'pack', 'table', 'update', 'factory', 'idt', 'ror']


PACK_ALGS = ['ES256', 'RS384', 'HS512']


def gen(rng, tier, index):
    plan = {'tick_ns': 0, 'id_seed': rng.randrange(1 << 30)}
    pool = []
    for i in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.65:
            m = gen_misc(rng, i, 1)
            mod, name, _, _, forms = KINDS[m['kind']]
            pool.append({'mod': mod, 'name': name, 'args': m['args'], 'forms': forms})
        else:
            mod, name, args = rng.choice(rng.choice([WRONG, RIGHT, RIGHT]))
            pool.append({'mod': mod, 'name': name, 'args': args, 'forms': rng.choice(['u', 'j', 'ujw'])})
    plan['pool'] = pool
    plan['shared'] = rng.randrange(len(pool)) if rng.random() < 0.4 else None
    threads = {}
    steps = rng.choice([STEPS, STEPS, ['pack', 'ser', 'parse', 'verify', 'idt', 'ror'], ['parse', 'dump', 'change', 'copy']])
    for t in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for u in range(rng.randrange(2, 13)):
            o = rng.choice(steps) if ops else 'new'
            op = {'u': u, 'o': o, 'p': rng.randrange(len(pool)), 'as': rng.choice(pool[0]['forms'] + 'jjwe'),
                  'n': rng.randrange(4), 'bare': int(rng.random() < 0.1)}
            if plan['shared'] is not None and rng.random() < 0.2:
                op = {'u': u, 'o': 'shared', 'n': rng.randrange(6)}
            ops.append(op)
        threads['t%d' % t] = ops
    plan['threads'] = threads
    where = [(t, op['u']) for t in threads for op in threads[t]]
    plan['preempt'] = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6, 9, 14])):
        t, op = rng.choice(where)
        plan['preempt'].append([t, op, rng.choice([rng.randrange(6), rng.randrange(30), rng.randrange(120)]),
                                rng.choice([x for x in threads if x != t])])
    if rng.random() < 0.6:
        plan['preempt'] = []
        plan['walk'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.005, 0.02, 0.05, 0.2])}
    plan['first'] = rng.choice(list(threads))
    return plan


def plain(v):
    """For comparing"""
    from oidcmsg.message import Message
    if isinstance(v, Message):
        return [type(v).__name__, plain(v._dict)]
    if isinstance(v, dict):
        return {'%s %s' % (type(k).__name__, k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(x) for x in v]
    if isinstance(v, (str, int, float, bool, bytes, type(None))):
        return '%s %r' % (type(v).__name__, v)
    return type(v).__name__


def spoil(v, deep=True):
    """Change whatever can be changed in there"""
    from oidcmsg.message import Message
    if isinstance(v, Message):
        v = v._dict
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v['spoilt'] = 'yes'
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('spoilt')


def load(p):
    return getattr(importlib.import_module(p['mod']), p['name'])


def keyjar(iss=''):
    from cryptojwt.key_jar import KeyJar
    kj = KeyJar()
    for i in {'', iss}:
        kj.import_jwks({'keys': [fixture(('EC', 14)), fixture(('RSA', 6)), fixture(('oct', 7))]}, i)
    return kj


class Script:
    """What a thread does. What comes out of it depends on the plan only."""

    def __init__(self, plan, name, texts, shared):
        self.plan = plan
        self.ops = plan['threads'][name]
        self.texts = texts
        self.shared = shared
        self.m = None
        self.p = None
        self.out = []

    def step(self, op):
        try:
            res = getattr(self, 'do_' + op['o'])(op)
            if op['o'] not in ('dump', 'shared') and self.m is not None:
                res = [plain(res), plain(self.m)]
            else:
                res = plain(res)
        except (HarnessError, Violation, SimStuck):
            raise
        except Exception as err:
            res = 'raised %s' % type(err).__name__
        self.out.append([op['u'], op['o'], res])

    def run(self, around=None):
        for op in self.ops:
            if around:
                around(op, lambda op=op: self.step(op))
            else:
                self.step(op)

    def args(self, op):
        return copy.deepcopy(self.plan['pool'][op['p'] % len(self.plan['pool'])]['args'])

    def do_new(self, op):
        self.p = self.plan['pool'][op['p'] % len(self.plan['pool'])]
        self.m = None
        self.m = load(self.p)(set_defaults=not op['bare'], **self.args(op))

    def do_parse(self, op):
        n = op['p'] % len(self.plan['pool'])
        texts = self.texts[n]
        form = op['as'] if op['as'] in texts else sorted(texts)[0] if texts else None
        if form is None:
            return
        self.p = self.plan['pool'][n]
        self.m = None
        m = load(self.p)()
        if form == 'u':
            m.deserialize(texts[form], 'urlencoded')
        elif form == 'j':
            m.deserialize(texts[form], 'json')
        elif form == 'w':
            m.from_jwt(texts[form], keyjar=keyjar(str(self.p['args'].get('iss', ''))))
        else:
            m.from_jwe(texts[form], [enc_key()])
        self.m = m

    def do_verify(self, op):
        kw = [{}, {'iss': 'https://op', 'client_id': 'c', 'aud': 'c'}, {'nonce': 'n', 'skew': 5},
              {'iss': 'https://other', 'aud': 'other'}][op['n']]
        if 'keyjar' not in kw:
            kw = dict(kw, keyjar=keyjar())
        return self.m.verify(**kw)

    def do_ser(self, op):
        if op['as'] == 'u':
            return self.m.to_urlencoded()
        return self.m.to_json()

    def do_jwt(self, op):
        spec, alg = [(('EC', 14), 'ES256'), (('RSA', 6), 'RS256'), (('oct', 7), 'HS256'), (None, 'none')][op['n']]
        w = self.m.to_jwt(key=[key_of(spec)] if spec else None, algorithm=alg)
        m = type(self.m)().from_jwt(w, keyjar=keyjar(str(self.m.get('iss', ''))))
        return [m, m.jws_header]

    def do_dump(self, op):
        m = self.m
        return [m.to_dict(), sorted(m.keys()), m.extra(), m.parameters(), m.required_parameters(), str(m), len(m),
                m.only_extras(), [m.value_type(k).__class__.__name__ for k in m.keys()], m.lax, m.jws_header]

    def do_copy(self, op):
        c = self.m.copy()
        spoil(c)
        return c

    def do_change(self, op):
        spoil(self.m)

    def do_defaults(self, op):
        self.m.set_defaults()

    def do_rm_blanks(self, op):
        self.m.rm_blanks()

    def do_weed(self, op):
        self.m.weed()

    def do_lax(self, op):
        self.m.lax = not self.m.lax

    def do_eq(self, op):
        return self.m == type(self.m)(**self.args(op))

    def do_table(self, op):
        return [sorted(self.m.c_param), sorted(self.m.c_default), sorted(self.m.c_allowed_values)]

    def do_update(self, op):
        other = type(self.m)(**self.args(op))
        self.m.update(other if op['n'] % 2 else other.to_dict())
        spoil(other)

    def do_factory(self, op):
        from oidcmsg import oauth2
        from oidcmsg import oidc
        f = [oauth2, oidc][op['n'] % 2].factory
        m = f(['TokenErrorResponse', 'AuthorizationErrorResponse', 'RegistrationRequest', 'ResponseMessage'][op['n']],
              **({'error': 'x'} if op['n'] != 2 else {'redirect_uris': ['https://x/']}))
        return [type(m).__module__, m]

    def do_pack(self, op):
        from oidcmsg.oidc import IdToken
        t = IdToken(iss='https://op', sub='s', **[
            {'access_token': 'y', 'code': 'x'}, {'code': 'x'}, {'access_token': 'y'}, {'nonce': 'n', 'code': 'x'}][op['n']])
        lifetime = [0, 60, 3600, 1][op['n']]
        if op['bare']:
            t.pack_init(lifetime=lifetime)
        else:
            t.pack(PACK_ALGS[(op['n'] + op['p'] + op['u']) % 3], lifetime=lifetime)
        res = plain(t)
        spoil(t)
        return res

    def do_idt(self, op):
        """The client's end of a code flow"""
        from oidcmsg.oidc import AccessTokenResponse
        from oidcmsg.oidc import IdToken
        t = IdToken(iss='https://op', sub='s', aud=['c'], exp=1600003600, iat=1600000000, nonce='n%d' % op['n'],
                    **({'azp': 'c'} if op['n'] == 1 else {}))
        txt = t.to_jwt(key=[key_of(('EC', 14))], algorithm='ES256')
        r = AccessTokenResponse(access_token='a', token_type='Bearer', id_token=txt)
        kw = {'keyjar': keyjar('https://op'), 'iss': ['https://op', 'https://other'][op['bare']], 'client_id': 'c'}
        try:
            ok = r.verify(**kw)
        except Exception as err:
            ok = type(err).__name__
        got = plain(r.get('__verified_id_token'))
        if r.get('__verified_id_token') is not None:
            spoil(r['__verified_id_token'])
        return [ok, got]

    def do_ror(self, op):
        """The provider's end of a request with a request object"""
        from oidcmsg.oidc import AuthorizationRequest
        from oidcmsg.oidc import make_openid_request
        a = {'response_type': 'code', 'client_id': 'c', 'redirect_uri': 'https://x/%d' % op['n'], 'scope': ['openid', 'profile'],
             'state': 's'}
        jwt = make_openid_request(AuthorizationRequest(**a), [key_of(('EC', 14))], request_object_signing_alg='ES256',
                                  issuer='c', recv='https://op', **({'claims': {'id_token': {'acr': None}}} if op['bare'] else {}))
        r = AuthorizationRequest(request=jwt, **dict(a, scope='openid', state='other'))
        try:
            ok = r.verify(keyjar=keyjar('c'))
        except Exception as err:
            ok = type(err).__name__
        got = plain({k: v for k, v in r.items() if k != 'request' and not k.startswith('__')})
        spoil(r)
        return [ok, got]

    def do_shared(self, op):
        s = self.shared
        if s is None:
            return
        n = op['n']
        if n == 0:
            return [s.to_dict(), s.to_json()]
        if n == 1:
            c = s.copy()
            spoil(c)
            return c
        if n == 2:
            return [sorted(s.items(), key=str), len(s), s.extra()]
        if n == 3:
            return [s.get('nothing', 'x'), 'nothing' in s, [s.get(k) for k in s]]
        if n == 4:
            m = type(s)(**s.to_dict())
            return [m, m == s]
        return str(s)


def tables():
    import oidcmsg.message as msg
    res = {}
    todo = [msg.Message]
    while todo:
        c = todo.pop()
        todo.extend(c.__subclasses__())
        n = '%s.%s' % (c.__module__, c.__name__)
        if n in res or not c.__module__.startswith('oidcmsg'):
            continue
        res[n] = {'c_param': {k: [repr(v[0]), bool(v[1]), bool(v[4])] for k, v in c.c_param.items()},
                  'c_default': plain(c.c_default), 'c_allowed_values': plain(c.c_allowed_values)}
    return res


def alone(plan, name, texts, shared):
    """In a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            s = Script(plan, name, texts, shared)
            s.run()
            data = json.dumps(s.out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            import traceback
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError('no result')
    return json.loads(buf)


def serialised(p):
    """The texts there are of this message, made here where nobody else is"""
    r = {}
    for form in 'ujwe':
        if form not in p['forms'] and not (form == 'e' and 'w' in p['forms']):
            continue
        try:
            m = load(p)(**copy.deepcopy(p['args']))
            if form == 'u':
                r[form] = m.to_urlencoded()
            elif form == 'j':
                r[form] = m.to_json()
            elif form == 'w':
                r[form] = m.to_jwt(key=[key_of(('EC', 14))], algorithm='ES256')
            else:
                r[form] = m.to_jwe([enc_key()], enc='A128GCM', alg='RSA-OAEP')
        except Exception:
            pass
    return r


def run(env, plan):
    sim = env.start(fs=False)
    sim.one_process = True
    import oidcmsg.oauth2  # noqa: F401
    import oidcmsg.oauth2.device_authorization  # noqa: F401
    import oidcmsg.oidc.identity_assurance  # noqa: F401
    import oidcmsg.oidc.session  # noqa: F401
    for spec in (('EC', 14), ('RSA', 6), ('oct', 7)):
        key_of(spec)
    enc_key()
    before = tables()
    texts = [serialised(p) for p in plan['pool']]
    shared = None
    if plan.get('shared') is not None and plan['pool']:
        p = plan['pool'][plan['shared'] % len(plan['pool'])]
        try:
            shared = load(p)(**copy.deepcopy(p['args']))
        except Exception:
            pass
    want = {name: alone(plan, name, texts, shared) for name in plan['threads']}
    scripts = {name: Script(plan, name, texts, shared) for name in plan['threads']}
    inside = [0]

    def trace(frame, what, arg):
        if SRC not in frame.f_code.co_filename:
            return None
        return line

    def line(frame, what, arg):
        if what == 'line' and sim.cur is not None and sim.cur.op >= 0:
            n = sim.switches
            sim.point('line', '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            inside[0] += sim.switches - n
        return line

    sim.trace_fn = trace

    def body(script):
        def go(task):
            def around(op, fn):
                task.begin(op['u'])
                fn()
                task.end()
                sim.event('got', task.name, op['u'], script.out[-1][2])
            script.run(around)
        return go

    for name, s in scripts.items():
        sim.spawn(name, body(s))
    sim.run()
    if sim.stuck:
        return {'nontrivial': True}
    sim.probe('switch', inside[0])
    sim.probe('changed', sum(1 for n in plan['threads'] for o in plan['threads'][n] if o['o'] in ('change', 'copy')))
    sim.probe('shared', sum(1 for n in plan['threads'] for o in plan['threads'][n] if o['o'] == 'shared'))
    for name, s in scripts.items():
        got = json.loads(json.dumps(s.out))
        for a, b in zip(want[name], got):
            if a != b:
                raise Violation('not-isolated', '%s, operation %d (%s) got %s, alone it gets %s' % (
                    name, a[0], a[1], json.dumps(b[2])[:600], json.dumps(a[2])[:600]))
    after = tables()
    for n in before:
        for t in before[n]:
            if after.get(n, {}).get(t) != before[n][t]:
                raise Violation('class-changed', '%s.%s is %s, was %s' % (
                    n, t, json.dumps(after.get(n, {}).get(t))[:500], json.dumps(before[n][t])[:500]))
    return {'nontrivial': inside[0] > 0}
