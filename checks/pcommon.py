"""
OpenID providers, clients and an attacker on a network, for the checks about messages and tokens.

The parties use the code under test to make, serialise, parse and verify every message. What they are to accept is
decided a second time, by judge_*(), from what was put on the wire, who signed what (the ledger) and the clocks.
"""
import base64
import hashlib
import heapq
import hmac
import json
import os
from urllib.parse import parse_qsl
from urllib.parse import urlencode

from sim import core
from sim import ecdsa
from sim.core import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'fixtures', 'keys.json')) as _fp:
    KEYS = json.load(_fp)
ecdsa.install()

SEC = 10 ** 9
LAT = 20 * 10 ** 6
CACHE = 300  # cryptojwt refreshes a key bundle after that many seconds

# Identifiers that have much in common
ISSUERS = ['https://op.example.com', 'https://op.example.com/', 'https://op.example.com/a', 'https://op.example.org',
           'https://OP.example.com', 'https://op.example.com:443']
CLIENTS = ['client', 'client1', 'clien', 'CLIENT', 'https://rp.example.org/', 'https://rp.example.org', 'c']
FLOWS = {'code': 'code', 'id_token': 'id_token', 'code id_token': 'code id_token',
         'id_token token': 'id_token token', 'code id_token token': 'code id_token token'}
LOGOUT_EVENT = 'http://schemas.openid.net/event/backchannel-logout'
VC = '__verified_'

SP_LISTS = ('scope', 'response_type', 'prompt', 'ui_locales', 'claims_locales', 'acr_values')
LISTS = ('aud', 'amr')


# ---------------------------------------------------------------- plain JOSE, not from the code under test

def b64e(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def b64d(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def jdump(d):
    return json.dumps(d, separators=(',', ':'))


def pub(jwk):
    return {k: v for k, v in jwk.items() if k not in ('d', 'p', 'q', 'dp', 'dq', 'qi')}


def fixture(spec):
    return dict(KEYS[spec[0]][spec[1]])


def key_of(spec):
    """cryptojwt key"""
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    return key_from_jwk_dict(fixture(spec))


for _i in range(len(KEYS['RSA'])):
    key_of(('RSA', _i))  # before the processes of the runs are forked


def raw_sign(alg, signing_input, spec=None, secret=None):
    """Signature of an attacker"""
    msg = signing_input.encode()
    if alg.startswith('HS'):
        h = {'HS256': hashlib.sha256, 'HS384': hashlib.sha384, 'HS512': hashlib.sha512}[alg]
        return hmac.new(secret, msg, h).digest()
    if alg == 'ES256':
        return ecdsa.sign(msg, int.from_bytes(b64d(fixture(spec)['d']), 'big'))
    from cryptojwt.jws.rsa import RSASigner
    return RSASigner(alg).sign(msg, key_of(spec).private_key())


def left_hash(value, alg):
    h = {'256': hashlib.sha256, '384': hashlib.sha384, '512': hashlib.sha512}[alg[-3:]](value.encode()).digest()
    return b64e(h[:len(h) // 2])


def near(s, i):
    """Something else that is very much like it"""
    some = [x for x in (s + '1', s[:-1], s.swapcase(), s + '/', s.rstrip('/'), s[1:], 'x' + s, s + ' ', ' ' + s, s + s,
                        s.upper(), s[:len(s) // 2], s + '\x00', s.replace('c', '\u0441'), s + '=', '*', ' ') if x != s and x]
    return some[i % len(some)]


def split_jwt(tok):
    """header, payload, signature of what looks like a signed JWT, or None"""
    if not isinstance(tok, str):
        return None
    parts = tok.split('.')
    if len(parts) != 3:
        return None
    try:
        hdr = json.loads(b64d(parts[0]))
        body = json.loads(b64d(parts[1]))
        sig = b64d(parts[2])
    except ValueError:
        return None
    if not isinstance(hdr, dict) or not isinstance(body, dict):
        return None
    if hdr.get('alg', '') is None:
        hdr['alg'] = 'none'  # the same to cryptojwt
    return hdr, body, sig


def norm(key, v):
    """Values as they are whatever way they went over the wire"""
    if hasattr(v, 'to_dict'):
        v = v.to_dict()
    if isinstance(v, bool) or v is None:
        return v
    if key in ('events', 'claims', 'registration') and isinstance(v, str):
        try:
            v = json.loads(v)
        except ValueError:
            pass
    if key in SP_LISTS and isinstance(v, str):
        v = v.split(' ')
    if key in LISTS and isinstance(v, str):
        v = [v]
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [norm('', x) for x in v]
    if isinstance(v, dict):
        return {k: norm(k, x) for k, x in v.items()}
    return v


def content(msg):
    """Of a message or dictionary, without what verification added"""
    return {k: norm(k, v) for k, v in msg.items() if not k.startswith(VC) and k != 'verified_id_token_hint' and
            v not in ('', [''], [], [None])}  # those are left out


def unwire(fmt, wire):
    """Independent decoding. None if it isn't anything."""
    try:
        if fmt == 'json':
            d = json.loads(wire)
            return d if isinstance(d, dict) else None
        d = {}
        for k, v in parse_qsl(wire):
            if k in d:
                return None
            d[k] = v
        return d
    except ValueError:
        return None


def rewire(fmt, params):
    return json.dumps(params) if fmt == 'json' else urlencode(
        [(k, v if isinstance(v, str) else jdump(v) if isinstance(v, (dict, list)) else str(v))
         for k, v in params.items()])


# ---------------------------------------------------------------- parties

class Response:
    def __init__(self, status, text):
        self.status_code = status
        self.text = text
        self.headers = {'Content-Type': 'application/json'}


class OP:
    def __init__(self, world, n, conf):
        from cryptojwt.key_jar import KeyJar
        self.world = world
        self.name = 'op%d' % n
        self.n = n
        self.iss = conf['iss']
        self.skew = conf.get('skew_ns', 0)
        self.enc = ('ENC', n)
        self.cur = {}
        self.published = []
        self.versions = []
        self.label = {}  # key -> algorithm it's said to be for, which is not what it's used for
        self.labels = []
        self.ever = set()
        self.kj = KeyJar()
        for spec in conf['keys']:
            self.cur[spec[0]] = spec
            self.published.append(spec)
        self.new_version()
        self.load_own()
        self.codes = {}
        self.uri = 'https://jwks/%s' % self.name

    def load_own(self):
        """Own keys, all there ever were: it has to recognise its own tokens"""
        specs = sorted(self.ever | {tuple(s) for s in self.cur.values()})
        for owner in ('', self.iss):
            self.kj.return_issuer(owner).set([])
            self.kj.import_jwks({'keys': [fixture(s) for s in specs]}, owner)
        self.kj.import_jwks({'keys': [fixture(self.enc)]}, '')

    def new_version(self):
        self.versions.append([list(s) for s in self.published])
        self.labels.append(dict(self.label))
        self.ever.update(tuple(s) for s in self.published)

    def jwks(self, version=-1):
        labels = self.labels[version]
        return {'keys': [dict(pub(fixture(s)), **({'alg': labels[tuple(s)]} if tuple(s) in labels else {}))
                         for s in self.versions[version]]}

    def usable(self, version=-1):
        return {tuple(s) for s in self.versions[version] if tuple(s) not in self.labels[version]}

    def add_client(self, rp):
        keys = [pub(fixture(rp.key))]
        self.kj.import_jwks({'keys': keys}, rp.id)
        self.kj.import_jwks({'keys': [fixture(rp.secret[self.n])]}, rp.id)


class RP:
    def __init__(self, world, n, conf):
        self.world = world
        self.name = 'rp%d' % n
        self.n = n
        self.id = conf['id']
        self.key = tuple(conf['key'])
        self.enc = ('ENC', 3 + n)
        self.secret = {i: tuple(s) for i, s in enumerate(conf['secret'])}
        self.skew = conf.get('skew_ns', 0)
        self.static = conf.get('static', 0)
        self.view = {}  # number of op -> keys got when keys were got the last time
        self.hold = {}
        self.fetches = 0

    def httpc(self, method, url, **kwargs):
        return self.world.fetch(self, url)

    def load(self, ops):
        from cryptojwt.key_jar import KeyJar
        self.kj = KeyJar(httpc=self.httpc)
        self.kj.import_jwks({'keys': [fixture(self.key)]}, self.id)
        self.kj.import_jwks({'keys': [fixture(self.enc)]}, '')
        for op in ops:
            # what is shared with this one only
            self.kj.import_jwks({'keys': [fixture(self.secret[op.n])]}, op.iss)
            if self.static:
                self.kj.import_jwks(op.jwks(), op.iss)
                self.view[op.n] = op.usable()
            else:
                self.kj.add_url(op.iss, op.uri)


class World:
    def __init__(self, env, plan, cats):
        self.env = env
        self.plan = plan
        self.cats = cats
        self.sim = env.start(fs=False)
        self.queue = []
        self.n = 0
        self.sent = {}
        self.ledger = {}  # signing input -> (owner, key, alg, signature)
        self.nokid = set()  # signing inputs of tokens that don't say which key
        self.sealed = {}  # JWE -> (for whom, what's inside)
        self.seen = []  # JWTs and JWEs that went over the wire
        self.wires = {}  # leg -> what went over the wire
        self.verdicts = {'accepted': 0, 'rejected': 0}
        self.interesting = 0
        self.ops = [OP(self, i, c) for i, c in enumerate(plan['ops'])]
        self.rps = [RP(self, i, c) for i, c in enumerate(plan['rps'])]
        self.sessions = [Session(self, c) for c in plan['sessions']]
        for rp in self.rps:
            self.on(rp)
            rp.load(self.ops)
            for op in self.ops:
                op.add_client(rp)
        for s in self.sessions:
            self.at(s.c['at'], s.start)
            for i, c in enumerate(s.c.get('jar', [])):
                self.at(s.c['at'] + c['after'], lambda s=s, i=i: s.do_jar(i))
        for i, r in enumerate(plan.get('rotations', [])):
            self.at(r['at'], lambda r=r: self.rotate(r))
        for c in plan.get('clock', []):
            self.at(c['at'], lambda c=c: self.step(c))

    # -- machinery
    def at(self, ns, fn):
        self.n += 1
        heapq.heappush(self.queue, (ns, self.n, fn))

    def after(self, ns, fn):
        self.at(self.now + ns, fn)

    @property
    def now(self):
        return self.sim.sim_elapsed_ns

    def on(self, node):
        """The node that acts now"""
        self.sim.node_skew_ns = node.skew

    def clock(self, node):
        """Seconds, as the node sees them"""
        return (self.sim.now_ns + node.skew) // SEC

    def run(self):
        count = 0
        while self.queue:
            ns, _, fn = heapq.heappop(self.queue)
            if ns > self.now:
                self.sim.advance(ns - self.now)
            fn()
            count += 1
            if count > 3000:
                raise core.HarnessError('too many events')

    def flag(self, cat, cls, msg):
        if cat in self.cats:
            raise Violation(cls, msg)

    def step(self, c):
        node = (self.ops + self.rps)[c['node'] % len(self.ops + self.rps)]
        node.skew += c['ns']
        self.sim.fire('clock-step')
        self.sim.event('clock', node.name, c['ns'])

    # -- keys
    def rotate(self, r):
        op = self.ops[r['op'] % len(self.ops)]
        spec = tuple(r['key'])
        new = [s for s in op.published if not (r['drop'] and s[0] == spec[0])] + [list(spec)]
        old = op.cur.get(spec[0])

        def publish():
            op.published = new
            if r.get('label'):
                op.label[spec] = {'EC': 'ES384', 'RSA': 'RS512'}[spec[0]]
                self.after(r['label'], correct)
            op.new_version()
            self.sim.event('publish', op.name, new)

        def correct():
            # it was said to be for another algorithm
            del op.label[spec]
            op.new_version()
            self.sim.event('correct', op.name, spec)

        def use():
            op.cur[spec[0]] = spec
            op.ever.add(spec)
            self.on(op)
            op.load_own()
            self.sim.event('rotate', op.name, spec)

        self.sim.fire('key-rotation')
        if r['lag'] > 0:
            use()
            self.after(r['lag'], publish)
        else:
            publish()
            self.after(-r['lag'], use)

    def endpoint_fault(self, op):
        for f in self.plan.get('endpoint', []):
            if f['op'] % len(self.ops) == op.n and f['from'] <= self.now < f['to']:
                return f
        return None

    def fetch(self, rp, url):
        rp.fetches += 1
        op = [o for o in self.ops if o.uri == url][0]
        f = self.endpoint_fault(op)
        what = f['what'] if f else 'ok'
        self.sim.event('fetch', rp.name, op.name, what)
        if what == 'down':
            self.sim.fire('jwks-down')
            raise ConnectionError('injected')
        if what == 'timeout':
            self.sim.fire('jwks-timeout')
            raise TimeoutError('injected')
        if what == '500':
            self.sim.fire('jwks-500')
            rp.hold[op.n] = self.sim.now_ns + rp.skew
            return Response(500, 'sorry')
        if what == 'html':
            self.sim.fire('jwks-garbage')
            return Response(200, '<html>login here</html>')
        if what == 'empty':
            self.sim.fire('jwks-garbage')
            return Response(200, '{"error": "x"}')
        version = -1
        if what == 'stale':
            self.sim.fire('jwks-stale')
            version = max(-len(op.versions), -1 - f.get('age', 1))
        rp.view[op.n] = op.usable(version)
        rp.hold.pop(op.n, None)
        return Response(200, json.dumps(op.jwks(version)))

    # -- signing
    def sign(self, owner, spec, make, alg, nokid=False):
        """make(key) gives the JWT"""
        key = key_of(spec) if spec else None
        if nokid and key:
            key.kid = ''
        jwt = make([key] if spec else None)
        self.record(owner, spec, alg, jwt)
        if nokid and 'kid' not in split_jwt(jwt)[0]:
            self.nokid.add(jwt.rsplit('.', 1)[0])
        return jwt

    def record(self, owner, spec, alg, jwt):
        h, p, s = jwt.split('.')
        self.ledger[h + '.' + p] = (owner, tuple(spec) if spec else None, alg, b64d(s))

    def seal(self, jwt, node, how=0):
        """Encrypt it for someone. Anybody can do that."""
        from cryptojwt.jwe.jwe import JWE
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        alg, enc = SEALS[how]
        jwe = JWE(jwt, alg=alg, enc=enc, cty='JWT').encrypt([key_from_jwk_dict(pub(fixture(node.enc)))])
        self.sealed[jwe] = (node.name, jwt, how)
        return jwe

    def open(self, tok, node, kw={}):
        """
        :return: what is inside if it is encrypted, reasons why it can't be
        """
        if not isinstance(tok, str) or tok.count('.') != 4:
            if 'encalg' in kw:
                # who says how it has to be encrypted wants it encrypted
                return tok, [(cat, 'not encrypted') for cat in ('auth', 'ro')]
            if 'encenc' in kw:
                return tok, [('maybe', 'not encrypted')]
            return tok, []
        hit, res = self.sealed.get(tok), []
        if hit is None:
            try:
                same = [x for x in self.sealed if x.split('.')[0] == tok.split('.')[0] and
                        [b64d(y) for y in x.split('.')] == [b64d(y) for y in tok.split('.')]]
            except Exception:
                same = [x for x in self.sealed if x in tok]
            if not same:
                return tok, [('auth', 'nobody encrypted this'), ('ro', 'nobody encrypted this')]
            hit, res = self.sealed[same[0]], [('maybe', 'odd form')]
        if hit[0] != node.name:
            return tok, [('auth', 'encrypted for someone else'), ('ro', 'encrypted for someone else')]
        for o, x in zip(('encalg', 'encenc'), SEALS[hit[2]]):
            if kw.get(o, x) != x:
                self.sim.probe('sealed-otherwise')
                res = res + [(cat, 'encrypted with %s, has to be %s' % (x, kw[o])) for cat in ('auth', 'ro')]
        self.sim.probe('decrypted')
        return hit[1], res

    def minted(self, what, want, jwt):
        got = split_jwt(jwt)[1]
        if content(got) != content(want) or isinstance(got.get('events'), str):
            for cat in ('content', 'minted'):
                self.flag(cat, 'minted', '%s made of %s has %s' % (what, want, got))
        if any(got.get(k) != want.get(k) for k in ('iat', 'exp', 'nbf')):
            self.flag('time-ok', 'minted', '%s made of %s has %s' % (what, want, got))

    # -- network
    def send(self, s, leg, dst, fmt, wire, handler):
        n = self.sent.get((s.id, leg), 0)
        self.sent[(s.id, leg)] = n + 1
        params = unwire(fmt, wire) or {}
        for v in params.values():
            if (split_jwt(v) or v in self.sealed) and v not in self.seen:
                self.seen.append(v)
        self.wires.setdefault(leg, []).append(wire)
        self.sim.event('send', s.id, leg, n, dst.name)
        original = wire
        attacked = False
        for a in self.plan.get('attacks', []):
            if a['s'] == s.id and a['leg'] == leg and a['n'] == n:
                new = attack(self, a, fmt, wire, leg, dst)
                if new is not None and new != wire:
                    self.sim.fire('attack-%s' % a['kind'])
                    wire = new
                    attacked = True
        delays = [LAT]
        for f in self.plan.get('net', []):
            if f['s'] == s.id and f['leg'] == leg and f['n'] == n:
                if f['do'] == 'hold':
                    # until the clock of the receiver says what the token says and some
                    at = self.hold_until(f, unwire(fmt, wire) or {})
                    if at is not None and at > self.clock(dst):
                        self.sim.fire('hold')
                        delays = [at * SEC + f['ns'] - self.sim.now_ns - dst.skew for _ in delays]
                if f['do'] == 'drop':
                    self.sim.fire('drop')
                    delays = []
                elif f['do'] == 'dup':
                    self.sim.fire('dup')
                    delays = delays + [LAT + f['ns']]
                elif f['do'] == 'delay':
                    self.sim.fire('delay')
                    delays = [d + f['ns'] for d in delays]
        for i, d in enumerate(delays):
            def deliver(i=i):
                self.on(dst)
                self.sim.event('deliver', s.id, leg, n, i, attacked)
                handler(wire, attacked)
            self.after(d, deliver)
        return original

    def hold_until(self, f, params):
        for v in params.values():
            j = split_jwt(self.sealed.get(v, (None, v))[1] if isinstance(v, str) else v)
            if j and isinstance(j[1].get(f['what']), int):
                return j[1][f['what']] + f['add']
        return None

    # -- verification
    def verify(self, what, cls, fmt, wire, kwargs, reasons, also=None):
        """
        :param reasons: list of (category, why not), empty if it has to be accepted
        :return: the message if it was accepted
        """
        err = None
        ok = False
        msg = None
        try:
            msg = cls().deserialize(wire, fmt)
            ok = msg.verify(**kwargs)
            if not ok:
                err = 'verify() gave %r' % (ok,)
        except (core.HarnessError, core.SimStuck, core.SimCrash):
            raise
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
            ok = False
        self.sim.event('verify', what, bool(ok), sorted(set(c for c, _ in reasons)))
        if reasons:
            self.interesting += 1
        if ok:
            self.verdicts['accepted'] += 1
            self.sim.probe('accepted')
            for cat, why in reasons:
                if cat not in ('maybe', 'form'):
                    self.flag(cat, 'accepted-' + cat, '%s accepted although %s: %s' % (what, why, wire[:600]))
            return msg
        self.verdicts['rejected'] += 1
        self.sim.probe('rejected')
        for cat in set(c for c, _ in reasons):
            self.sim.probe('rejected-' + cat)
        if not reasons:
            for cat in ('complete', 'keys', 'time-ok'):
                self.flag(cat, 'rejected', '%s rejected (%s) although nothing is wrong with it: %s' % (
                    what, err, wire[:600]))
        return None

    def check_content(self, what, sent, msg):
        """What was sent is what is there"""
        a, b = content(sent), content(msg)
        if a != b:
            diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            self.flag('content', 'content', '%s: sent %s, received %s' % (
                what, {k: a.get(k) for k in diff}, {k: b.get(k) for k in diff}))

    def check_parameters(self, what, msg, final):
        got = content(msg)
        if got != final:
            diff = sorted(k for k in set(got) | set(final) if got.get(k) != final.get(k))
            self.flag('ro', 'parameters', '%s: parameters are %s, should be %s' % (
                what, {k: got.get(k) for k in diff}, {k: final.get(k) for k in diff}))

    def check_marker(self, what, msg, params, claim, name=None):
        """A verified token is there if there was one to verify, and it is that one"""
        name = name or VC + claim
        if claim not in params:
            if name in msg:
                self.flag('marker', 'marker', '%s: %s without %s' % (what, name, claim))
            return
        if name not in msg:
            self.flag('marker', 'marker', '%s: no %s' % (what, name))
            return
        got = msg[name]
        j = split_jwt(params[claim])
        if not j or not hasattr(got, 'to_dict') or content(got) != content(j[1]):
            self.flag('marker', 'marker', '%s: %s is %s, the token says %s' % (
                what, name, content(got) if hasattr(got, 'items') else got, j and j[1]))
        elif (got.jws_header or {}).get('alg') != j[0].get('alg'):
            self.flag('marker', 'marker', '%s: header of %s is %s, that of the token %s' % (
                what, name, got.jws_header, j[0]))

    # -- judging
    def judge_sig(self, tok, owner_of, what='token', none_ok=False, allowed=None, kw={}):
        """Is it signed by the one it says it is from?"""
        j = split_jwt(tok)
        if not j:
            return None, [('form', 'not a signed JWT')]
        hdr, body, sig = j
        res = []
        alg = hdr.get('alg')
        if '.'.join([tok.split('.')[0], tok.split('.')[1], b64e(sig)]) != tok or not tok.replace('.', '').replace(
                '-', '').replace('_', '').isalnum():
            res.append(('maybe', 'odd form'))
        if alg == 'none':
            if not none_ok:
                res.append(('auth', 'unsigned %s' % what))
            elif kw.get('sigalg', 'none') != 'none':
                res.append(('maybe', 'unsigned'))
            return j, res
        if kw.get('sigalg', 'none') not in ('none', alg):
            res.append(('auth', '%s signed with %s, has to be %s' % (what, alg, kw['sigalg'])))
        h, p, _ = tok.split('.')
        led = self.ledger.get(h + '.' + p)
        if led is None:
            res.append(('auth', 'nobody signed this %s' % what))
            return j, res
        owner, spec, lalg, lsig = led
        if lsig != sig:
            res.append(('auth', 'signature of %s damaged' % what))
        if body.get('iss') not in owner_of(owner):
            res.append(('auth', '%s signed by %s, issuer is %s' % (what, owner, body.get('iss'))))
        if allowed and alg != allowed:
            res.append(('auth', '%s signed with %s, has to be %s' % (what, alg, allowed)))
        if h + '.' + p in self.nokid:
            self.sim.probe('no-kid')
            if not kw.get('allow_missing_kid'):
                res.append(('maybe', 'which key it is signed with is not said'))
        elif spec and hdr.get('kid') != fixture(spec)['kid'] or set(hdr) - {'alg', 'kid', 'typ'}:
            res.append(('maybe', 'odd header'))
        return j, res

    def party_of(self, owner):
        """Who has the right to sign as whom"""
        return [o.iss for o in self.ops if o.name == owner] + [r.id for r in self.rps if r.name == owner]

    def judge_id_token(self, rp, op, params, claim, kw, node, check_hash, tok_key='id_token'):
        tok = params[claim]
        none_ok = kw.get('sigalg') == 'none' or bool(kw.get('allow_sign_alg_none'))
        j, res = self.judge_sig(tok, self.party_of, 'ID token', none_ok, kw.get('allowed_sign_alg'), kw)
        if j is None:
            return j, res
        hdr, body, _ = j
        body = filled(body)
        signed = hdr.get('alg') != 'none'
        h, p, _ = tok.split('.')
        led = self.ledger.get(h + '.' + p)
        if led and led[1]:
            if rp is not None and led[1][0] == 'oct' and led[1] != rp.secret[op.n]:
                res.append(('maybe', 'secret of someone else'))
            if rp is None and body.get('iss') != op.iss:
                res.append(('maybe', 'someone else issued it'))
        if signed and kw.get('sigalg') == 'none':
            res.append(('maybe', 'signed'))
        if 'iss' in kw and body.get('iss') != kw['iss']:
            res.append(('bind', 'issuer is %s' % body.get('iss')))
        res.extend(claims_reasons(body))
        aud = body.get('aud')
        aud = [aud] if isinstance(aud, str) else aud or []
        if 'client_id' in kw and kw['client_id'] not in aud:
            res.append(('bind', 'audience is %s' % aud))
        if len(aud) > 1 and body.get('azp') not in aud:
            res.append(('bind', 'azp is %s' % body.get('azp')))
        if 'azp' in body and 'client_id' in kw and body['azp'] != kw['client_id']:
            res.append(('bind', 'azp is %s' % body['azp']))
        if 'nonce' in kw and 'nonce' in body and kw['nonce'] != body['nonce']:
            res.append(('bind', 'nonce is %s' % body['nonce']))
        if check_hash and signed:
            for p, c in (('access_token', 'at_hash'), ('code', 'c_hash')):
                if p in params:
                    try:
                        if body.get(c) != left_hash(params[p], hdr['alg']):
                            res.append(('bind', '%s is %s' % (c, body.get(c))))
                    except (KeyError, TypeError):
                        res.append(('maybe', 'hash'))
        res.extend(self.judge_time(body, node, kw))
        return j, res

    def judge_time(self, body, node, kw):
        now = self.clock(node)
        skew = kw.get('skew', 0)
        res = []
        if isinstance(body.get('exp'), int) and now - skew > body['exp']:
            res.append(('time', 'it expired %s s ago' % (now - body['exp'])))
        if isinstance(body.get('iat'), int) and body['iat'] + kw.get('nonce_storage_time', 4 * 3600) < now - skew:
            res.append(('time', 'it was issued %s s ago' % (now - body['iat'])))
        return res

    def key_reasons(self, rp, tok, before, fetches):
        """
        Could the client have the key? To be asked after verification, the keys it has then count.

        :param before: what it had before
        """
        j = split_jwt(tok)
        if not j or j[0].get('alg') == 'none' or rp.static:
            return []
        h, p, _ = tok.split('.')
        led = self.ledger.get(h + '.' + p)
        if not led or not led[1] or led[1][0] == 'oct':
            return []
        op = [o for o in self.ops if o.name == led[0]]
        if not op:
            return []
        op = op[0]
        if h + '.' + p in self.nokid and not (
                led[1] in rp.view.get(op.n, ()) and led[1] in (before or {}).get(op.n, ()) and
                not any(op.labels) and led[1] not in op.label):
            return [('maybe', 'which key it is signed with is not said')]
        if led[1] in rp.view.get(op.n, ()):
            return []
        if led[1] in op.label:
            return [('maybe', 'it is said to be for another algorithm')]
        if list(led[1]) in [list(s) for s in op.published]:
            f = self.endpoint_fault(op)
            held = op.n in rp.hold and self.sim.now_ns + rp.skew <= rp.hold[op.n] + SEC
            if (f is None) and not held:
                return []  # all it had to do was ask
        if any(led[1] in labels for labels in op.labels):
            return [('maybe', 'it was said to be for another algorithm')]
        return [('keys', 'the key %s is not one it knows' % (led[1],))]


def filled(body):
    """Empty values count as none"""
    return {k: v for k, v in body.items() if v not in ('', [''], [], [None])}


def claims_reasons(body):
    """Is everything there, and of the right kind?"""
    res = []
    for c in ('iss', 'sub', 'aud', 'exp', 'iat'):
        if not body.get(c):
            res.append(('bind', 'no %s' % c))
    for c in ('exp', 'iat'):
        if c in body and not isinstance(body[c], int):
            res.append(('maybe', '%s is no number' % c))
    for k, v in body.items():
        if k == 'aud' and isinstance(v, list) and v and all(isinstance(x, str) and x for x in v):
            continue
        if isinstance(v, bool) or not isinstance(v, (str, int)) or v == '':
            res.append(('maybe', '%s is %r' % (k, v)))
    return res


# ---------------------------------------------------------------- one session of one user

class Session:
    RTO = 5 * SEC
    TRIES = 6

    def __init__(self, world, c):
        self.w = world
        self.c = c
        self.id = c['id']
        self.op = world.ops[c['op'] % len(world.ops)]
        self.rp = world.rps[c['rp'] % len(world.rps)]
        self.nonce = 'n%d' % self.id
        self.state = 's%d' % self.id
        self.code = 'code%d' % self.id
        self.at = 'at%d' % self.id
        self.done = set()
        self.excused = set()
        self.rt = FLOWS[c['flow']]
        self.tries = {}
        self.issued = None
        self.id_token = None

    # -- at the client
    def kwargs(self, own_nonce=True):
        c = self.c
        kw = {'keyjar': self.rp.kj}
        for o in c['kw']:
            if o == 'iss':
                kw['iss'] = self.op.iss
            elif o == 'client_id':
                kw['client_id'] = self.rp.id
            elif o == 'nonce' and own_nonce:
                kw['nonce'] = self.nonce
            elif o == 'skew':
                kw['skew'] = c['skew']
            elif o == 'allowed_sign_alg':
                kw['allowed_sign_alg'] = c['alg']
            elif o == 'nonce_storage_time':
                kw['nonce_storage_time'] = c['storage']
            elif o == 'none':
                kw['allow_sign_alg_none'] = True
            elif o == 'sigalg':
                kw['sigalg'] = 'none'
            elif o == 'sigexp':
                kw['sigalg'] = c['alg']
            elif o == 'loose':
                kw['allow_missing_kid'] = True
        return kw

    def want(self):
        """How what is encrypted has to be encrypted"""
        return {k: SEALS[v][k == 'encenc'] for k, v in self.c.get('want', {}).items()}

    def more(self, c):
        """What a provider knows about the client, and may say"""
        if not self.c.get('wide'):
            return {}
        return dict({'opponent_id': self.rp.id, 'sender': self.rp.id}, **({'alg': c['alg']} if c and 'alg' in c else {}))

    def seal(self, jwt, node):
        return self.w.seal(jwt, node, self.c.get('how', 0))

    def again(self, leg, fn):
        n = self.tries.get(leg, 0)
        self.tries[leg] = n + 1
        if n < self.TRIES:
            self.w.after(self.RTO << min(n, 4), lambda: None if leg in self.done else fn())

    def start(self):
        if 'authz' in self.done:
            return
        from oidcmsg.oidc import AuthorizationRequest
        self.w.on(self.rp)
        c = self.c
        args = {'response_type': self.rt.split(' '), 'client_id': self.rp.id, 'redirect_uri': 'https://rp/cb?x=1&y=å',
                'scope': ['openid'] + c.get('scope', []), 'state': self.state}
        if 'nonce' in c['req'] or 'id_token' in self.rt:
            args['nonce'] = self.nonce
        args.update(c.get('params', {}))
        if c.get('hint'):
            hint = self.hint(c['hint'])
            if hint:
                args['id_token_hint'] = self.seal(hint, self.op) if c.get('hint_enc') else hint
        req = AuthorizationRequest(**args)
        sent = dict(args)
        self.ro = None
        if c.get('ro'):
            sent = self.request_object(req, sent)
            req = AuthorizationRequest(**sent)
        wire = req.to_urlencoded()
        self.w.send(self, 'authz_req', self.op, 'urlencoded', wire,
                    lambda wire, attacked: self.op_authz(wire, attacked, sent))
        self.again('authz', self.start)

    def request_object(self, req, args):
        """The request in a JWT, signed by the client"""
        from oidcmsg.oidc import make_openid_request
        c = self.c['ro']
        alg = c['alg']
        spec = {'ES256': self.rp.key, 'HS256': self.rp.secret[self.op.n], 'none': None}[alg]
        from cryptojwt.key_jar import KeyJar
        kj = KeyJar()
        if spec:
            kj.import_jwks({'keys': [fixture(spec)]}, self.rp.id)
        inner = dict(args)
        for k, v in c.get('inner', {}).items():
            if v is None:
                inner.pop(k, None)
            else:
                inner[k] = v
        from oidcmsg.oidc import AuthorizationRequest
        jwt = make_openid_request(AuthorizationRequest(**inner), kj, self.rp.id, alg, self.op.iss,
                                  with_jti=bool(c.get('jti')), lifetime=c.get('lifetime', 0))
        self.w.record(self.rp.name, spec, alg, jwt)
        h, p, s = jwt.split('.')
        self.w.check_content('request object', dict(inner, iss=self.rp.id), {
            k: v for k, v in json.loads(b64d(p)).items() if k not in ('iat', 'exp', 'jti', 'aud')})
        outer = dict(args, **c.get('outer', {}))
        outer['request'] = self.seal(jwt, self.op) if c.get('enc') else jwt
        return outer

    # -- at the provider
    def op_authz(self, wire, attacked, sent):
        from oidcmsg.oidc import AuthorizationRequest
        w = self.w
        params = unwire('urlencoded', wire)
        reasons = []
        if params and 'request' in params:
            params['request'], reasons = w.open(params['request'], self.op, self.want())
        more, final = w.judge_request(params, self.op, self.want())
        reasons = reasons + more
        what = 'authorization request of %d' % self.id
        kw = dict(self.want(), keyjar=self.op.kj, **self.more(self.c.get('ro')))
        if self.c.get('op_nonce'):
            kw['nonce'] = self.nonce
            if final is not None and 'id_token' in (final.get('response_type') or []) and final.get(
                    'nonce', self.nonce) != self.nonce:
                reasons = reasons + [('bind', 'nonce is %s' % final['nonce'])]
        msg = w.verify(what, AuthorizationRequest, 'urlencoded', wire, kw, reasons)
        if msg is None:
            if reasons:
                self.excused.add('authz')
            return
        if not attacked and 'request' not in params:
            w.check_content(what, sent, msg)
        if final is not None:
            w.check_parameters(what, msg, final)
            for name in (VC + 'request', VC + 'id_token_hint', VC + 'id_token', 'verified_id_token_hint'):
                if name not in msg:
                    continue
                fine = name == VC + 'request' and 'request' in params or \
                    name == 'verified_id_token_hint' and 'id_token_hint' in final
                if not fine:
                    w.flag('marker', 'marker', '%s: %s without anything to verify' % (what, name))
            if 'request' in params:
                j = split_jwt(params['request'])
                got = msg.get(VC + 'request')
                if got is None or not hasattr(got, 'items') or content(got) != content(j[1]):
                    w.flag('marker', 'marker', '%s: verified request is %s, it was %s' % (what, got, j[1]))
        if msg.get('state') != self.state or msg.get('client_id') != self.rp.id:
            self.excused.add('authz')
            return
        self.respond()

    def token(self, with_hash):
        """The ID token"""
        from oidcmsg.oidc import IdToken
        c, w, op = self.c, self.w, self.op
        tok = c.get('tok', {})
        names = {'self': self.rp.id, 'other': [r.id for r in w.rps if r is not self.rp][0] if len(w.rps) > 1
                 else 'elsewhere'}
        args = {'iss': op.iss, 'sub': 'user%d' % self.id, 'aud': [names.get(a, a) for a in tok.get('aud', ['self'])]}
        if tok.get('azp'):
            args['azp'] = names.get(tok['azp'], tok['azp'])
        if tok.get('iss'):
            args['iss'] = tok['iss']
        close = tok.get('near', {})
        for k, i in close.items():
            if k == 'iss':
                args['iss'] = near(op.iss, i)
            elif k == 'aud':
                args['aud'] = [near(self.rp.id, i)] + (['x'] if i % 3 == 0 else [])
                if i % 3 == 0:
                    args['azp'] = self.rp.id if i % 2 else args['aud'][0]
            elif k == 'azp':
                args['azp'] = near(self.rp.id, i)
                args['aud'] = args['aud'] + ([args['azp']] if i % 2 else [])
        if 'nonce' in c['req'] or 'id_token' in self.rt:
            if tok.get('nonce') != 'none':
                args['nonce'] = self.nonce if tok.get('nonce') != 'wrong' else 'n0000'
                if 'nonce' in close:
                    args['nonce'] = near(self.nonce, close['nonce'])
        if args['aud'] == ['']:
            del args['aud']
        args.update(tok.get('claims', {}))
        if tok.get('aud_str') and 'aud' in args and len(args['aud']) == 1:
            args['aud'] = args['aud'][0]
        now = w.clock(op)
        if not c['lifetime']:
            args['exp'] = now + c['exp']
        idt = IdToken(**args)
        want = dict(args, iat=now)
        if c['lifetime']:
            want['exp'] = now + c['lifetime']
        if tok.get('again'):
            # made of an earlier one
            idt['iat'] = now - tok['again']
            if c['lifetime']:
                idt['exp'] = idt['iat'] + c['lifetime']
        if with_hash:
            for p, claim, val in (('access_token', 'at_hash', self.at), ('code', 'c_hash', self.code)):
                how = tok.get(claim)
                if how == 'none':
                    continue
                idt[p] = val if how != 'wrong' else val + 'x'
                if c['alg'] != 'none':
                    want[claim] = left_hash(idt[p], c['alg'])
                    if claim in close:
                        i = close[claim]
                        del idt[p]
                        idt[claim] = want[claim] = (
                            left_hash(val, 'HS512'), left_hash(val, 'HS384'), left_hash(val, 'HS256'), val,
                            b64e(hashlib.sha256(val.encode()).digest()), left_hash(val, 'HS256') + '==', 'x')[i % 9] \
                            if i % 9 < 7 else near(want[claim], i // 9)
        alg = c['alg']
        spec = {'ES256': op.cur.get('EC'), 'RS256': op.cur.get('RSA'), 'HS256': self.rp.secret[op.n],
                'RS384': op.cur.get('RSA'), 'RS512': op.cur.get('RSA'), 'HS384': self.rp.secret[op.n], 'none': None}[alg]
        w.on(op)
        if alg == 'none':
            for k in ('access_token', 'code'):
                if k in idt:
                    del idt[k]
            for k in ('at_hash', 'c_hash'):
                want.pop(k, None)
        jwt = w.sign(op.name, spec, lambda key: idt.to_jwt(key=key, algorithm=alg, lifetime=c['lifetime']), alg,
                     c.get('nokid'))
        j = split_jwt(jwt)
        w.minted('ID token', want, jwt)
        if alg != 'none' and j[0].get('alg') != alg:
            w.flag('auth', 'minted', 'ID token signed with %s instead of %s' % (j[0].get('alg'), alg))
        self.id_token = jwt
        return jwt

    def respond(self):
        from oidcmsg.oidc import AuthorizationResponse
        w, c = self.w, self.c
        w.on(self.op)
        args = {'state': self.state}
        if 'code' in self.rt:
            args['code'] = self.code
            self.op.codes[self.code] = self
        if 'token' in self.rt.split(' '):
            args['access_token'] = self.at
            args['token_type'] = 'Bearer'
            args['expires_in'] = 3600
        if 'iss' in c['resp']:
            args['iss'] = self.op.iss
        if 'client_id' in c['resp']:
            args['client_id'] = self.rp.id
        if 'aud' in c['resp']:
            args['aud'] = self.rp.id
        if 'id_token' in self.rt:
            args['id_token'] = self.token(True)
        wire = AuthorizationResponse(**args).to_urlencoded()
        w.send(self, 'authz_resp', self.rp, 'urlencoded', wire,
               lambda wire, attacked: self.rp_authz(wire, attacked, args))

    def rp_receive(self, what, cls, fmt, wire, attacked, sent, check_hash, kw, done):
        w, rp, op = self.w, self.rp, self.op
        params = unwire(fmt, wire)
        before = {n: set(v) for n, v in rp.view.items()}
        if params is None:
            reasons = [('form', 'unreadable')]
        else:
            reasons = form_reasons(cls.__name__, params, kw)
            if 'id_token' in params:
                _, r = w.judge_id_token(rp, op, params, 'id_token', kw, rp, check_hash)
                reasons = reasons + r
        lazy = Lazy(reasons, lambda: w.key_reasons(rp, params['id_token'], before, 0)
                    if params and 'id_token' in params else [])
        msg = w.verify('%s of %d' % (what, self.id), cls, fmt, wire, kw, lazy)
        if msg is None:
            if lazy:
                self.excused.add(done)
            return None
        w.check_marker('%s of %d' % (what, self.id), msg, params, 'id_token')
        if not attacked:
            w.check_content('%s of %d' % (what, self.id), sent, msg)
        return msg

    def rp_authz(self, wire, attacked, sent):
        from oidcmsg.oidc import AuthorizationResponse
        msg = self.rp_receive('authorization response', AuthorizationResponse, 'urlencoded', wire, attacked, sent, True,
                              self.kwargs(), 'authz')
        if msg is None:
            return
        if msg.get('state') != self.state:
            return
        if 'authz' in self.done:
            return
        if 'code' in self.rt and 'code' not in msg or 'id_token' in self.rt and VC + 'id_token' not in msg:
            self.excused.add('authz')
            return
        self.done.add('authz')
        if 'code' in msg:
            self.use_code = msg['code']
            self.ask_token()
        else:
            self.later()

    def assertion(self, kind='token'):
        """JWT to authenticate the client with"""
        from oidcmsg.oidc import AuthnToken
        w, c = self.w, self.c['assert']
        now = w.clock(self.rp)
        args = {'iss': self.rp.id, 'sub': self.rp.id, 'aud': [self.op.iss + '/token'], 'jti': 'j%d' % w.n,
                'exp': now + c['exp']}
        for k in ('iat', 'nbf'):
            if c.get(k) is not None:
                args[k] = now + c[k]
        if c.get('aud') == 'other':
            args['aud'] = ['https://other/token']
        elif c.get('aud') == 'near':
            args['aud'] = [near(self.op.iss + '/token', c['i'])] + (['x'] if c['i'] % 3 == 0 else [])
        elif c.get('aud') == 'iss':
            args['iss'] = near(self.rp.id, c['i'])
        elif c.get('aud') == 'many':
            args['aud'] = ['https://other/token', self.op.iss + '/token']
        elif c.get('aud') == 'str':
            args['aud'] = self.op.iss + '/token'
        alg = c['alg']
        spec = {'ES256': self.rp.key, 'HS256': self.rp.secret[self.op.n]}[alg]
        jwt = w.sign(self.rp.name, spec, lambda key: AuthnToken(**args).to_jwt(key=key, algorithm=alg), alg,
                     self.c.get('nokid'))
        w.minted('client assertion', args, jwt)
        return self.seal(jwt, self.op) if c.get('enc') else jwt

    def ask_token(self):
        from oidcmsg.oidc import AccessTokenRequest
        if 'token' in self.done:
            return
        w, c = self.w, self.c
        w.on(self.rp)
        args = {'grant_type': 'authorization_code', 'code': self.use_code, 'redirect_uri': 'https://rp/cb?x=1&y=å',
                'client_id': self.rp.id, 'state': self.state}
        if c.get('assert'):
            args['client_assertion_type'] = 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer'
            args['client_assertion'] = self.assertion()
        wire = AccessTokenRequest(**args).to_urlencoded()
        w.send(self, 'token_req', self.op, 'urlencoded', wire,
               lambda wire, attacked: self.op_token(wire, attacked, args))
        self.again('token', self.ask_token)

    def op_token(self, wire, attacked, sent):
        from oidcmsg.oidc import AccessTokenRequest
        w = self.w
        params = unwire('urlencoded', wire)
        reasons = form_reasons('AccessTokenRequest', params, {}) if params is not None else [('form', 'unreadable')]
        msg = w.verify('token request of %d' % self.id, AccessTokenRequest, 'urlencoded', wire, {}, reasons)
        if msg is None:
            self.excused.add('token')
            return
        if not attacked:
            w.check_content('token request of %d' % self.id, sent, msg)
        if 'client_assertion' in msg and not self.op_assertion(msg['client_assertion']):
            self.excused.add('token')
            return
        owner = self.op.codes.get(msg['code'])
        if owner is None:
            self.excused.add('token')
            return
        # Always answers, with what belongs to that code. Who it ends up with finds out it's not meant for them.
        if owner is not self:
            self.excused.add('token')
        self.token_response(owner)

    def op_assertion(self, jwt):
        from oidcmsg.oidc import AuthnToken
        w, op = self.w, self.op
        kw = {'aud': op.iss + '/token', 'iss': self.rp.id}
        if self.c.get('assert', {}).get('skew') is not None:
            kw['skew'] = self.c['assert']['skew']
        how = self.want()
        if 'sigexp' in self.c['kw'] and self.c.get('assert'):
            how['sigalg'] = self.c['assert'].get('expect') or self.c['assert']['alg']
        if 'loose' in self.c['kw']:
            how['allow_missing_kid'] = True
        inner, sealed = w.open(jwt, op, how)
        j, reasons = w.judge_sig(inner, w.party_of, 'client assertion', kw=how)
        reasons = sealed + reasons
        if j is not None:
            reasons = reasons + w.judge_jwt(j[1], op, kw)
        if j is None and 'sigalg' in how:
            reasons = reasons + [('auth', 'not signed')]
        if j is not None and j[0].get('alg') == 'none' and 'sigalg' not in how:
            return False  # from_jwt leaves that to its user
        what = 'client assertion of %d' % self.id
        msg = w.verify(what, Jwt(AuthnToken, op.kj, how), 'jwt', jwt, kw, reasons)
        if msg is not None and j is not None and content(msg) != content(j[1]):
            w.flag('content', 'content', '%s: %s became %s' % (what, j[1], content(msg)))
        return msg is not None and j is not None

    def token_response(self, owner):
        from oidcmsg.oidc import AccessTokenResponse
        w, c = self.w, self.c
        w.on(self.op)
        args = {'access_token': owner.at, 'token_type': 'Bearer', 'expires_in': 3600, 'scope': ['openid', 'x y'][:1]}
        if c.get('rtoken'):
            args['refresh_token'] = 'r%d' % self.id
        if not c.get('no_idt'):
            args['id_token'] = owner.token(c.get('hash', False))
        wire = AccessTokenResponse(**args).to_json()
        w.send(self, 'token_resp', self.rp, 'json', wire,
               lambda wire, attacked: self.rp_token(wire, attacked, args))

    def rp_token(self, wire, attacked, sent):
        from oidcmsg.oidc import AccessTokenResponse
        msg = self.rp_receive('token response', AccessTokenResponse, 'json', wire, attacked, sent, False, self.kwargs(),
                              'token')
        if msg is None or 'token' in self.done:
            return
        if not self.c.get('no_idt') and VC + 'id_token' not in msg:
            self.excused.add('token')
            return
        self.done.add('token')
        self.later()

    # -- and when it's over
    def later(self):
        for i, what in enumerate(self.c.get('later', [])):
            leg = '%s%d' % (what['what'], i)
            self.w.after(what['after'], lambda what=what, leg=leg: getattr(self, 'do_' + what['what'])(what, leg))

    def do_back(self, c, leg):
        """Back channel logout"""
        if leg in self.done:
            return
        from oidcmsg.oidc.session import BackChannelLogoutRequest
        from oidcmsg.oidc.session import LogoutToken
        w, op, rp = self.w, self.op, self.rp
        w.on(op)
        now = w.clock(op)
        args = {'iss': op.iss, 'aud': [rp.id], 'iat': now + c.get('iat', 0), 'jti': 'l%d' % w.n,
                'events': {LOGOUT_EVENT: {}}, 'sub': 'user%d' % self.id}
        if c.get('ids') == 'sid':
            del args['sub']
        if c.get('ids') in ('sid', 'both'):
            args['sid'] = 'sid%d' % self.id
        if c.get('ids') == 'none':
            del args['sub']
        if c.get('aud') == 'other':
            args['aud'] = ['x' + rp.id]
        elif c.get('aud') == 'near':
            args['aud'] = [near(rp.id, c['i'])] + (['x'] if c['i'] % 3 == 0 else [])
        elif c.get('aud') == 'iss':
            args['iss'] = near(op.iss, c['i'])
        elif c.get('aud') == 'many':
            args['aud'] = ['other', rp.id]
        if c.get('nonce'):
            args['nonce'] = 'n'
        if c.get('events') == 'more':
            args['events']['x'] = {}
        elif c.get('events') == 'wrong':
            args['events'] = {LOGOUT_EVENT + '2': {}}
        elif c.get('events') == 'near':
            args['events'] = {near(LOGOUT_EVENT, c['i']): {}}
        elif c.get('events') == 'value':
            args['events'] = {LOGOUT_EVENT: {'x': 1}}
        alg = c['alg']
        spec = {'ES256': op.cur.get('EC'), 'RS256': op.cur.get('RSA'), 'HS256': rp.secret[op.n], 'none': None}[alg]
        jwt = w.sign(op.name, spec, lambda key: LogoutToken(**args).to_jwt(key=key, algorithm=alg), alg,
                     self.c.get('nokid'))
        w.minted('logout token', args, jwt)
        if c.get('enc'):
            jwt = self.seal(jwt, rp)
        wire = BackChannelLogoutRequest(logout_token=jwt).to_urlencoded()
        w.send(self, 'back', rp, 'urlencoded', wire, lambda wire, attacked: self.rp_back(wire, attacked, c, leg))
        self.again(leg, lambda: self.do_back(c, leg))

    def rp_back(self, wire, attacked, c, leg):
        from oidcmsg.oidc.session import BackChannelLogoutRequest
        w, op, rp = self.w, self.op, self.rp
        params = unwire('urlencoded', wire)
        kw = dict(self.want(), keyjar=rp.kj)
        for o in c['kw']:
            kw[NAMES.get(o, o)] = {'aud': rp.id, 'iss': op.iss, 'skew': c.get('skew', 0), 'allowed_sign_alg': c['alg'],
                                   'allow_sign_alg_none': True, 'sigexp': c.get('expect') or c['alg'], 'loose': True}[o]
        before = {n: set(v) for n, v in rp.view.items()}
        reasons, tok = [], None
        what = 'logout request of %d' % self.id
        if not params or not params.get('logout_token'):
            reasons = [('bind', 'no logout token')]
        else:
            none_ok = bool(kw.get('allow_sign_alg_none'))
            tok, sealed = w.open(params['logout_token'], rp, kw)
            params['logout_token'] = tok
            j, reasons = w.judge_sig(tok, w.party_of, 'logout token', none_ok, kw.get('allowed_sign_alg'), kw)
            if j is None:
                # JSON is what an encrypted token may have inside
                reasons = sealed + [('auth', 'not signed') if not none_ok else ('maybe', 'not signed')]
            else:
                reasons = sealed + reasons + w.judge_logout(j[1], rp, kw)
        lazy = Lazy(reasons, lambda: w.key_reasons(rp, tok, before, 0))
        msg = w.verify(what, BackChannelLogoutRequest, 'urlencoded', wire, kw, lazy)
        if msg is None:
            if lazy:
                self.excused.add(leg)
            return
        w.check_marker(what, msg, params, 'logout_token')
        self.done.add(leg)

    def hint(self, how):
        """An ID token of an earlier session the provider gets back"""
        for x in self.w.sessions:
            if x is not self and x.op is self.op and x.rp is self.rp and x.id_token:
                if how == 1:
                    return x.id_token
                a = {'none': {'kind': 'none', 'alg': 'none'}, 'plain': {'kind': 'plain'},
                     'evil': {'kind': 'resign', 'alg': 'ES256', 'kid': 'same'}}[how]
                return forge(self.w, dict(a, claims={'sub': 'admin'}), x.id_token)
        return None

    # -- requests of the kinds OAuth2 has
    def do_jar(self, n):
        from cryptojwt.key_jar import KeyJar
        from oidcmsg import oauth2
        w, c = self.w, self.c['jar'][n]
        w.on(self.rp)
        leg = 'jar%d' % n
        cls = {'jar': oauth2.JWTSecuredAuthorizationRequest, 'par': oauth2.PushedAuthorizationRequest}[c['cls']]
        args = {'response_type': 'code', 'client_id': self.rp.id, 'redirect_uri': 'https://rp/cb', 'scope': 'openid',
                'state': 'j%d' % self.id}
        inner = dict(args, **{k: v for k, v in c['inner'].items() if v})
        for k, v in c['inner'].items():
            if v is None:
                inner.pop(k, None)
        outer = dict({'client_id': self.rp.id, 'response_type': 'code'}, **{k: v for k, v in c['outer'].items() if v})
        if c['cls'] == 'par' and c['bare']:
            outer = dict(inner, **outer)
        elif c['cls'] == 'jar' and c['bare']:
            outer['request_uri'] = 'https://rp/r'
        else:
            alg = c['alg']
            spec = {'ES256': self.rp.key, 'HS256': self.rp.secret[self.op.n], 'none': None}[alg]
            inner['iss'] = self.rp.id
            inner['aud'] = [self.op.iss]
            outer['request'] = w.sign(self.rp.name, spec, lambda key: oauth2.AuthorizationRequest(**inner).to_jwt(
                key=key, algorithm=alg), alg)
            w.minted('request object', inner, outer['request'])
            if c.get('enc'):
                outer['request'] = self.seal(outer['request'], self.op)
        wire = cls(**outer).to_urlencoded()
        w.send(self, leg, self.op, 'urlencoded', wire, lambda wire, attacked: self.op_jar(wire, attacked, outer, c, cls))

    def op_jar(self, wire, attacked, sent, c, cls):
        w, op = self.w, self.op
        params = unwire('urlencoded', wire)
        what = '%s of %d' % (cls.__name__, self.id)
        reasons, final, j = [], None, None
        if params is None:
            reasons = [('form', 'unreadable')]
        elif 'request' in params:
            raw = params
            params = dict(params)
            params['request'], sealed = w.open(params['request'], op, self.want())
            j, r = w.judge_sig(params['request'], w.party_of, 'request object', none_ok=True)
            reasons = sealed + [('ro' if x == 'auth' else x, why) for x, why in r]
            if j is not None:
                final = content(j[1])
                if str(j[0].get('alg')).startswith('HS') and j[1].get('iss') != self.rp.id:
                    reasons.append(('maybe', 'secret of someone else'))
                if c['cls'] == 'par':
                    final = dict(content(raw), **final)
        else:
            final = content(params)
            if c['cls'] == 'jar' and not params.get('request_uri'):
                reasons = [('ro', 'no request')]
        if params and any(v == '' for v in params.values()):
            reasons = reasons + [('maybe', 'empty')]
        msg = w.verify(what, cls, 'urlencoded', wire, dict(self.want(), keyjar=op.kj, **self.more(c)), reasons)
        if msg is None or final is None:
            return
        w.check_parameters(what, msg, final)
        w.check_marker(what, msg, params, 'request')
        for how in c.get('merge', ()) if j is not None and VC + 'request' in msg else ():
            self.merge(what, raw, msg[VC + 'request'], content(j[1]), how)

    def merge(self, what, raw, inner, want, how):
        """The provider makes one request of the two itself"""
        from oidcmsg.oauth2 import AuthorizationRequest
        w = self.w
        outer = {k: v for k, v in content(raw).items()}
        if how != 'strict':
            want = dict({k: v for k, v in outer.items() if how == 'lax' or k in how}, **want)
        msg = AuthorizationRequest().deserialize(urlencode(raw), 'urlencoded')
        if isinstance(how, list):
            msg.merge(inner, 'whitelist', how)
        elif how == 'strict':
            msg.merge(inner)
        else:
            msg.merge(inner, how)
        got = content(msg)
        if got != want:
            w.flag('ro', 'merged', '%s: merged (%s) they are %s, should be %s' % (what, how, got, want))

    def do_end(self, c, leg):
        """Logout by the user"""
        if leg in self.done or not self.id_token:
            return
        from oidcmsg.oidc.session import EndSessionRequest
        w = self.w
        w.on(self.rp)
        args = {'id_token_hint': self.id_token, 'post_logout_redirect_uri': 'https://rp/out?a=1&b=2', 'state': 'å ä'}
        if c.get('nohint'):
            del args['id_token_hint']
        if c.get('nohint') == 2:
            del args['post_logout_redirect_uri']
        wire = EndSessionRequest(**args).to_urlencoded()
        w.send(self, 'end', self.op, 'urlencoded', wire, lambda wire, attacked: self.op_id_token(
            wire, attacked, args, c, leg, EndSessionRequest, 'id_token_hint'))
        self.again(leg, lambda: self.do_end(c, leg))

    def do_refresh(self, c, leg):
        if leg in self.done or not self.id_token:
            return
        from oidcmsg.oidc.session import RefreshSessionRequest
        w = self.w
        w.on(self.rp)
        args = {'id_token': self.id_token, 'redirect_url': 'https://rp/cb', 'state': 'x'}
        wire = RefreshSessionRequest(**args).to_urlencoded()
        w.send(self, 'refresh', self.op, 'urlencoded', wire, lambda wire, attacked: self.op_id_token(
            wire, attacked, args, c, leg, RefreshSessionRequest, 'id_token'))
        self.again(leg, lambda: self.do_refresh(c, leg))

    def do_check(self, c, leg):
        if leg in self.done or not self.id_token:
            return
        from oidcmsg.oidc.session import CheckSessionRequest
        w = self.w
        w.on(self.rp)
        args = {'id_token': self.id_token}
        wire = CheckSessionRequest(**args).to_urlencoded()
        w.send(self, 'check', self.op, 'urlencoded', wire, lambda wire, attacked: self.op_id_token(
            wire, attacked, args, c, leg, CheckSessionRequest, 'id_token'))
        self.again(leg, lambda: self.do_check(c, leg))

    def op_id_token(self, wire, attacked, sent, c, leg, cls, claim):
        """The provider gets one of its tokens back"""
        w, op = self.w, self.op
        params = unwire('urlencoded', wire)
        kw = {'keyjar': op.kj}
        for o in c['kw']:
            kw[NAMES.get(o, o)] = {'iss': op.iss, 'client_id': self.rp.id, 'skew': c.get('skew', 0),
                                   'allowed_sign_alg': self.c['alg'], 'allow_sign_alg_none': True,
                                   'sigexp': self.c['alg'], 'loose': True}[o]
        what = '%s of %d' % (cls.__name__, self.id)
        if params is None:
            reasons = [('form', 'unreadable')]
        else:
            reasons = form_reasons(cls.__name__, params, kw)
            if claim in params:
                j, r = w.judge_id_token(None, op, params, claim, kw, op, False)
                reasons = reasons + r
                if j is not None and str(j[0].get('alg')).startswith('HS'):
                    # it has the secret among the keys of the client
                    reasons.append(('maybe', 'shared secret'))
        msg = w.verify(what, cls, 'urlencoded', wire, kw, reasons)
        if msg is None:
            self.excused.add(leg)
            return
        w.check_marker(what, msg, params, claim)
        if not attacked:
            w.check_content(what, sent, msg)
        self.done.add(leg)


class Jwt:
    """A message class whose instances come in a JWT"""

    def __init__(self, cls, keyjar, how):
        self.cls = cls
        self.keyjar = keyjar
        self.how = how

    def __call__(self):
        return self

    def deserialize(self, wire, fmt):
        return self.cls().from_jwt(wire, keyjar=self.keyjar, **self.how)


class Lazy(list):
    """Reasons of which some are only known when it's over"""

    def __init__(self, known, later):
        list.__init__(self, known)
        self.later = later

    def _all(self):
        if self.later is not None:
            later, self.later = self.later, None
            self.extend(later())

    def __iter__(self):
        self._all()
        return list.__iter__(self)

    def __bool__(self):
        self._all()
        return list.__len__(self) > 0


def form_reasons(name, params, kw):
    """What has to be there"""
    req = {
        'AuthorizationResponse': (), 'AccessTokenResponse': ('access_token', 'token_type'),
        'AccessTokenRequest': ('grant_type', 'code', 'redirect_uri'), 'EndSessionRequest': (),
        'RefreshSessionRequest': ('id_token', 'redirect_url', 'state'), 'CheckSessionRequest': ('id_token',),
    }[name]
    res = []
    if name == 'AccessTokenRequest':
        req = ('code', 'redirect_uri')
    for r in req:
        if not params.get(r):
            res.append(('bind', 'no %s' % r))
    if name == 'AuthorizationResponse':
        for p in ('iss', 'client_id'):
            if params.get(p) and p in kw and params[p] != kw[p]:
                res.append(('bind', '%s of the response is %s' % (p, params[p])))
        if params.get('aud') and 'client_id' in kw:
            if ' ' in params['aud']:
                res.append(('maybe', 'aud'))
            elif params['aud'] != kw['client_id']:
                res.append(('bind', 'audience of the response is %s' % params['aud']))
    if name == 'EndSessionRequest' and 'post_logout_redirect_uri' in params and 'id_token_hint' not in params:
        res.append(('bind', 'post_logout_redirect_uri without id_token_hint'))
    for k, v in params.items():
        if not isinstance(v, (str, int)) or isinstance(v, bool):
            if k.startswith(VC):
                continue
            res.append(('maybe', '%s is of an odd type' % k))
        if k == 'expires_in' and not str(v).isdigit():
            res.append(('maybe', k))
        if k == 'error_description' or v == '':
            res.append(('maybe', k))
    return res


def _judge_request(self, params, op, kw={}):
    """
    :return: reasons, parameters there have to be after verification
    """
    if params is None:
        return [('form', 'unreadable')], None
    res = []
    for r in ('scope', 'redirect_uri', 'response_type', 'client_id'):
        if not params.get(r):
            res.append(('ro', 'no %s' % r))
    final = content(params)
    for x in ('prompt', 'display'):
        allowed = {'display': ['page', 'popup', 'touch', 'wap'],
                   'prompt': ['none', 'login', 'consent', 'select_account']}[x]
        if x in params and not all(v in allowed for v in params[x].split(' ')):
            res.append(('ro', '%s is %s' % (x, params[x])))
    if 'request' in params:
        j, r = self.judge_sig(params['request'], self.party_of, 'request object', none_ok=True)
        res.extend(('ro' if c == 'auth' else c, why) for c, why in r)
        if j is None:
            # may be JSON
            return res + [('maybe', 'request')], None
        final = content(j[1])
        if str(j[0].get('alg')).startswith('HS') and (
                j[1].get('iss') != params.get('client_id') or self.ledger.get(params['request'].rsplit('.', 1)[0], (
                    0, None))[1] not in [s for r in self.rps for n, s in r.secret.items()
                           if r.id == params.get('client_id') and n == op.n]):
            res.append(('maybe', 'secret of someone else'))
    if 'id_token_hint' in final:
        hint, r = self.open(final['id_token_hint'], op, kw)
        res.extend(r)
        j, r = self.judge_sig(hint, self.party_of, 'ID token hint')
        res.extend(r)
        if j is None:
            res.append(('auth', 'the ID token hint is not signed'))
        elif str(j[0].get('alg')).startswith('HS'):
            res.append(('maybe', 'shared secret'))
    rt = final.get('response_type') or []
    if not rt:
        res.append(('ro', 'no response_type'))
    if 'id_token' in rt and 'nonce' not in final:
        res.append(('ro', 'no nonce'))
    scope = final.get('scope') or []
    if 'openid' not in scope:
        res.append(('ro', 'openid not in scope'))
    prompt = final.get('prompt') or []
    if 'offline_access' in scope and 'consent' not in prompt:
        res.append(('ro', 'offline access without consent'))
    if 'none' in prompt and len(prompt) > 1:
        res.append(('ro', 'prompt none and others'))
    if any(v == '' for v in params.values()):
        res.append(('maybe', 'empty'))
    return res, final


def _judge_jwt(self, body, node, kw):
    """JsonWebToken and AuthnToken"""
    body = filled(body)
    res = []
    now = self.clock(node)
    skew = kw.get('skew', 0)
    for c in ('iss', 'sub', 'aud', 'jti', 'exp'):
        if not body.get(c):
            res.append(('bind', 'no %s' % c))
    if 'exp' in body and now - skew > body['exp']:
        res.append(('time', 'it expired %s s ago' % (now - body['exp'])))
    for c in ('iat', 'nbf'):
        if c in body and body[c] > now + skew:
            res.append(('time', '%s is in %s s' % (c, body[c] - now)))
    aud = body.get('aud')
    aud = [aud] if isinstance(aud, str) else aud or []
    if 'aud' in kw and kw['aud'] not in aud:
        res.append(('bind', 'audience is %s' % aud))
    if 'iss' in kw and body.get('iss') != kw['iss']:
        res.append(('bind', 'issuer is %s' % body.get('iss')))
    return res


def _judge_logout(self, body, node, kw):
    body = filled(body)
    res = []
    now = self.clock(node)
    for c in ('iss', 'aud', 'iat', 'jti', 'events'):
        if not body.get(c):
            res.append(('bind', 'no %s' % c))
    events = body.get('events')
    if isinstance(events, str):
        res.append(('maybe', 'events is a string'))
        try:
            events = json.loads(events)
        except ValueError:
            pass
    if events != {LOGOUT_EVENT: {}}:
        res.append(('bind', 'events is %s' % events))
    if not body.get('sub') and not body.get('sid'):
        res.append(('bind', 'neither sub nor sid'))
    if 'nonce' in body:
        res.append(('bind', 'it has a nonce'))
    aud = body.get('aud')
    aud = [aud] if isinstance(aud, str) else aud or []
    if 'aud' in kw and kw['aud'] not in aud:
        res.append(('bind', 'audience is %s' % aud))
    if 'iss' in kw and body.get('iss') != kw['iss']:
        res.append(('bind', 'issuer is %s' % body.get('iss')))
    if isinstance(body.get('iat'), int) and body['iat'] > now + kw.get('skew', 0):
        res.append(('time', 'it was issued %s s ahead' % (body['iat'] - now)))
    return res


World.judge_request = _judge_request
World.judge_jwt = _judge_jwt
World.judge_logout = _judge_logout


# ---------------------------------------------------------------- the attacker

SEALS = [('RSA-OAEP', 'A128GCM'), ('RSA-OAEP-256', 'A256GCM'), ('RSA1_5', 'A128CBC-HS256')]
ATTACKER = ('EC', 15)
ATTACKER_RSA = ('RSA', 7)


def attack(world, a, fmt, wire, leg, dst=None):
    """:return: what is delivered instead"""
    params = unwire(fmt, wire)
    if params is None:
        return None
    kind = a['kind']
    if kind == 'wire':
        others = [x for x in world.wires.get(leg, []) if x != wire]
        return others[a['i'] % len(others)] if others else None
    if kind == 'set':
        for k, v in a['params'].items():
            if v is None:
                params.pop(k, None)
            elif isinstance(v, list) and v[:1] == ['near']:
                if params.get(k):
                    params[k] = near(params[k], v[1])
            else:
                params[k] = v
        return rewire(fmt, params)
    if kind == 'marker':
        claim = a['claim']
        forged = dict(iss='https://op.example.com', sub='admin', aud=['client'], **a.get('claims', {}))
        for name in a['names']:
            params[name] = forged if fmt == 'json' else jdump(forged)
        if a.get('drop'):
            params.pop(claim, None)
            if claim == 'id_token_hint':
                params.pop('post_logout_redirect_uri', None)
            if a.get('uri'):
                params['request_uri'] = 'https://rp/r'
        return rewire(fmt, params)
    claim = a['claim']
    tok = params.get(claim)
    if not isinstance(tok, str):
        return None
    new = forge(world, a, tok, dst)
    if new is None:
        return None
    params[claim] = new
    return rewire(fmt, params)


def forge(world, a, tok, leg_node=None):
    kind = a['kind']
    if kind == 'replay':
        others = [x for x in world.seen if x != tok]
        return others[a['i'] % len(others)] if others else None
    if tok in world.sealed:
        world.sim.fire('attack-sealed')
        name, inner, how = world.sealed[tok]
        node = [n for n in world.ops + world.rps if n.name == name][0]
        n = a['i'] if 'i' in a else 5
        if n % 6 == 0:
            i = n * len(tok) // 100
            return tok[:i] + ('A' if tok[i] != 'A' else 'B') + tok[i + 1:] if tok[i] != '.' else None
        if n % 6 == 1:
            others = [x for x in world.ops + world.rps if x is not node]
            return world.seal(inner, others[n % len(others)])
        if n % 6 == 2:
            return world.seal(inner, node, (how + 1 + n // 6 % 2) % 3)
        new = forge(world, a, inner)
        return None if new is None else world.seal(new, node, how)
    if a.get('seal') and leg_node is not None:
        new = forge(world, dict(a, seal=0), tok)
        return None if new is None else world.seal(new, leg_node)
    j = split_jwt(tok)
    if j is None:
        return None
    hdr, body, sig = j
    h, p, s = tok.split('.')
    new_body = dict(body)
    for k, v in a.get('claims', {}).items():
        if v is None:
            new_body.pop(k, None)
        elif k in ('exp', 'iat') and isinstance(v, int) and k in new_body:
            new_body[k] += v
        else:
            new_body[k] = v
    np = b64e(jdump(new_body).encode())
    if kind == 'none':
        nh = dict(hdr, alg=a['alg'])
        if a.get('nokid'):
            nh.pop('kid', None)
        return '%s.%s.%s' % (b64e(jdump(nh).encode()), np, s if a.get('keep') else '')
    if kind == 'plain':
        return jdump(new_body)
    if kind == 'strip':
        return '%s.%s.' % (h, p)
    if kind == 'sigflip':
        if not s:
            return None
        i = a['i'] % (len(s) - 1)
        abc = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
        return '%s.%s.%s' % (h, p, s[:i] + abc[abc.index(s[i]) ^ (1 + a['x'] % 63)] + s[i + 1:])
    if kind == 'payload':
        return '%s.%s.%s' % (h, np, s)
    if kind == 'header':
        nh = dict(hdr)
        for k, v in a['header'].items():
            if v is None:
                nh.pop(k, None)
            else:
                nh[k] = v
        return '%s.%s.%s' % (b64e(jdump(nh).encode()), p, s)
    if kind in ('swapsig', 'swaphdr'):
        others = [x for x in world.seen if x != tok and split_jwt(x)]
        if not others:
            return None
        o = others[a['i'] % len(others)].split('.')
        return '%s.%s.%s' % ((h, p, o[2]) if kind == 'swapsig' else (o[0], p, s))
    if kind in ('resign', 'evil'):
        alg = a['alg']
        if kind == 'evil':
            op = world.ops[a['op'] % len(world.ops)]
            spec = op.cur.get({'ES256': 'EC', 'RS256': 'RSA'}[alg])
            if spec is None:
                return None
        else:
            spec = ATTACKER if alg == 'ES256' else ATTACKER_RSA
        nh = {'alg': alg}
        if a.get('kid') == 'same':
            nh['kid'] = hdr.get('kid')
        elif a.get('kid') == 'own':
            nh['kid'] = fixture(spec)['kid']
        if a.get('jwk'):
            nh['jwk'] = pub(fixture(spec))
        if a.get('jku'):
            nh['jku'] = 'https://evil/jwks'
        nhs = b64e(jdump(nh).encode())
        si = '%s.%s' % (nhs, np)
        jwt = '%s.%s' % (si, b64e(raw_sign(alg, si, spec)))
        if kind == 'evil':
            # it's as if that one had said it
            world.record(op.name, spec, alg, jwt)
        return jwt
    if kind == 'hsconf':
        spec = world.ops[a['op'] % len(world.ops)].cur.get(a['key'])
        if spec is None:
            return None
        k = pub(fixture(spec))
        material = a['material']
        if material == 'jwk':
            secret = jdump(k).encode()
        elif material == 'pem':
            from cryptography.hazmat.primitives import serialization
            secret = key_of(spec).public_key().public_bytes(serialization.Encoding.PEM,
                                                            serialization.PublicFormat.SubjectPublicKeyInfo)
        elif material == 'num':
            secret = b64d(k.get('n') or k.get('x'))
        elif material == 'numtext':
            secret = (k.get('n') or k.get('x')).encode()
        else:
            secret = b''
        nh = {'alg': 'HS256'}
        if not a.get('nokid'):
            nh['kid'] = hdr.get('kid')
        si = '%s.%s' % (b64e(jdump(nh).encode()), np)
        return '%s.%s' % (si, b64e(raw_sign('HS256', si, secret=secret)))
    if kind == 'odd':
        return {'four': tok + '.' + s, 'two': '%s.%s' % (h, p), 'space': tok + ' ', 'nl': tok[:-1] + '\n' + tok[-1],
                'empty': '..', 'pad': tok + '=='}[a['form']]
    raise core.HarnessError('attack %s' % kind)


# ---------------------------------------------------------------- plans

TOKEN_LEGS = {'authz_resp': 'id_token', 'token_resp': 'id_token', 'back': 'logout_token', 'end': 'id_token_hint',
              'refresh': 'id_token', 'check': 'id_token', 'authz_req': 'request', 'token_req': 'client_assertion'}


def gen_world(rng, plan, n_ops=None, n_rps=None, skews=True):
    n_ops = n_ops or rng.choice([1, 2, 2, 3])
    n_rps = n_rps or rng.choice([1, 2, 2, 3])
    iss = rng.sample(ISSUERS, n_ops)
    ids = rng.sample(CLIENTS, n_rps)

    def skew():
        return rng.choice([0, 0, rng.randrange(-3, 4), rng.randrange(-120, 121)]) * SEC + rng.randrange(SEC) \
            if skews else 0
    plan['ops'] = [{'iss': iss[i], 'keys': [['EC', i * 3], ['RSA', i * 2]], 'skew_ns': skew()} for i in range(n_ops)]
    plan['rps'] = [{'id': ids[i], 'key': ['EC', 9 + i], 'secret': [['oct', (i * n_ops + o) % 8] for o in range(n_ops)],
                    'skew_ns': skew(), 'static': 0} for i in range(n_rps)]
    # every secret is shared by two only
    used = 0
    for r in plan['rps']:
        for o in range(n_ops):
            r['secret'][o] = ['oct', used % 8]
            used += 1
    plan['id_seed'] = rng.randrange(1 << 30)
    plan['start_ns'] = 1_600_000_000 * SEC + rng.randrange(10 ** 15) + rng.randrange(SEC)


NAMES = {'sigexp': 'sigalg', 'loose': 'allow_missing_kid'}  # how parameters of verify() are called
ALL_KW = ['iss', 'client_id', 'nonce', 'skew', 'allowed_sign_alg', 'nonce_storage_time']


def gen_session(rng, plan, i, careful=0.8, at=None):
    flow = rng.choice(list(FLOWS) + ['code', 'code'])
    alg = rng.choice(['ES256', 'ES256', 'RS256', 'HS256', 'RS384', 'HS384'])
    kw = [k for k in ALL_KW if rng.random() < careful or k in ('iss', 'client_id') and rng.random() < 0.5]
    s = {'id': i, 'rp': rng.randrange(len(plan['rps'])), 'op': rng.randrange(len(plan['ops'])), 'flow': flow,
         'at': at if at is not None else rng.randrange(60) * SEC + rng.randrange(SEC), 'alg': alg,
         'lifetime': rng.choice([0, 60, 300, 3600, 86400]), 'exp': rng.choice([60, 300, 3600]), 'kw': kw,
         'skew': rng.choice([0, 1, 5, 60, 300]), 'storage': rng.choice([1, 60, 600, 14400, 10 ** 6]),
         'req': ['nonce'] if rng.random() < 0.8 else [], 'resp': [x for x in ('iss', 'client_id', 'aud') if rng.random() < .3],
         'hash': int(rng.random() < 0.5), 'rtoken': int(rng.random() < 0.3), 'tok': {}, 'later': [],
         'how': rng.choice([0, 0, 1, 2]), 'wide': int(rng.random() < 0.2)}
    if rng.random() < 0.3:
        s['want'] = {o: s['how'] if rng.random() < 0.85 else rng.randrange(3) for o in ('encalg', 'encenc')
                     if rng.random() < 0.8}
    if rng.random() < 0.25:
        s['kw'].append('sigexp')
    if rng.random() < 0.2:
        s['nokid'] = 1
        if rng.random() < 0.8:
            s['kw'].append('loose')
    return s


def gen_assert(rng):
    return {'alg': rng.choice(['ES256', 'HS256']), 'exp': rng.choice([0, 1, 30, 60, 600]),
            'iat': rng.choice([None, 0, 0, -10]), 'nbf': rng.choice([None, None, 0, -10]),
            'skew': rng.choice([None, 0, 1, 10, 60, 300]), 'aud': rng.choice([None, None, 'many', 'str']),
            'enc': int(rng.random() < 0.25), 'expect': rng.choice([None] * 6 + ['ES256', 'HS256', 'RS256'])}


def gen_later(rng, alg):
    what = rng.choice(['back', 'back', 'end', 'refresh', 'check'])
    c = {'what': what, 'after': rng.choice([0, SEC, 30 * SEC, 200 * SEC]) + rng.randrange(SEC)}
    if rng.random() < 0.2:
        more = ['sigexp']
    else:
        more = []
    if rng.random() < 0.2:
        more.append('loose')
    if what == 'back':
        c.update({'alg': rng.choice(['ES256', 'RS256', 'HS256']), 'ids': rng.choice(['sub', 'sid', 'both']),
                  'kw': [k for k in ('aud', 'iss', 'skew', 'allowed_sign_alg') if rng.random() < 0.8],
                  'skew': rng.choice([0, 1, 10, 300]), 'enc': int(rng.random() < 0.25),
                  'expect': rng.choice([None] * 6 + ['ES256', 'HS256', 'RS256'])})
    else:
        c['kw'] = [k for k in ('iss', 'client_id', 'skew', 'allowed_sign_alg') if rng.random() < 0.7]
        c['skew'] = rng.choice([0, 10, 300])
    c['kw'] = c['kw'] + more
    return c


def legs_of(s):
    res = ['authz_req', 'authz_resp']
    if 'code' in s['flow']:
        res += ['token_req', 'token_resp']
    return res + [c['what'] for c in s['later']]


def gen_net(rng, plan, n, far=30):
    net = plan.setdefault('net', [])
    for _ in range(n):
        s = rng.choice(plan['sessions'])
        do = rng.choice(['drop', 'dup', 'delay'])
        net.append({'s': s['id'], 'leg': rng.choice(legs_of(s)), 'n': rng.choice([0, 0, 1]), 'do': do,
                    'ns': rng.choice([SEC // 10, SEC, 7 * SEC, far * SEC]) + rng.randrange(SEC)})


def gen_forgery(rng, plan, claim):
    kind = rng.choice(['none', 'none', 'plain', 'strip', 'sigflip', 'payload', 'payload', 'header', 'resign', 'resign',
                       'evil', 'evil', 'hsconf', 'hsconf', 'replay', 'swapsig', 'swaphdr', 'odd'])
    a = {'claim': claim, 'kind': kind, 'i': rng.randrange(100), 'op': rng.randrange(3)}
    if rng.random() < (0.6 if kind == 'plain' else 0.1):
        a['seal'] = 1
    if rng.random() < 0.7 or kind == 'payload':
        a['claims'] = rng.choice([{'sub': 'admin'}, {'sub': 'admin', 'exp': 100000, 'iat': 1000}, {'acr': '4'},
                                  {'nonce': None}, {'azp': None}, {'exp': 10 ** 6}])
    if kind == 'none':
        a['alg'] = rng.choice(['none', 'none', 'none', 'None', 'NONE', 'nOnE', '', None])
        a['keep'] = int(rng.random() < 0.3)
        a['nokid'] = int(rng.random() < 0.5)
    elif kind == 'header':
        a['header'] = rng.choice([{'kid': 'ec1'}, {'kid': None}, {'alg': 'HS256'}, {'alg': 'ES256'}, {'typ': 'JWT2'},
                                  {'alg': 'RS256'}, {'cty': 'x'}, {'crit': ['x']}, {'kid': 'nope'}])
    elif kind in ('resign', 'evil'):
        a['alg'] = rng.choice(['ES256', 'RS256'])
        a['kid'] = rng.choice(['same', 'own', 'none'])
        if rng.random() < 0.3:
            a['jwk'] = 1
        if rng.random() < 0.3:
            a['jku'] = 1
    elif kind == 'hsconf':
        a['key'] = rng.choice(['EC', 'RSA'])
        a['material'] = rng.choice(['jwk', 'pem', 'num', 'numtext', 'empty'])
        a['nokid'] = int(rng.random() < 0.5)
    elif kind == 'sigflip':
        a['x'] = rng.randrange(63)
    elif kind == 'odd':
        a['form'] = rng.choice(['four', 'two', 'space', 'nl', 'empty', 'pad'])
    return a


def finish(world, liveness=True):
    """What has to be true in the end"""
    world.run()
    if liveness:
        for s in world.sessions:
            legs = ['authz'] + (['token'] if 'code' in s.rt else [])
            for leg in legs:
                if leg not in s.done:
                    if s.excused:
                        break
                    for cat in ('complete', 'keys'):
                        world.flag(cat, 'no-progress', 'session %d: %s was never completed' % (s.id, leg))
    return {'nontrivial': world.verdicts['accepted'] + world.verdicts['rejected'] > 1}
