"""What the checks of OidcContext have in common"""
import copy
import json
import os

from sim.core import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'fixtures', 'keys.json')) as _fp:
    KEYS = json.load(_fp)

# keys that don't take long to work with, preferably
OWN = [('EC', 0), ('EC', 1), ('EC', 2), ('oct', 0), ('oct', 1), ('RSA', 0), ('EC', 3)]
ISSUERS = ['https://op.example.com', 'https://op.example.com/', 'https://op.example.com/a', 'https://op.example.com/b',
           'https://OP.example.com', 'https://op.example.com?x=/y', 'https://op.example.com:8443', 'https://å.example.com',
           'https://op.example.com/a%2Fb', 'https://op.example.com/a/b', 'https://op.example.com/{issuer}',
           'https://op.example.com/a_b', 'https://op.example.com_8443', 'https___op.example.com', 'https:__op.example.com',
           'op.example.com', 'https%3A%2F%2Fop.example.com', 'https://op.example.com/a b', 'https://op.example.com/a+b',
           'https://op.example.com/a-b', 'http://op.example.com', 'https://op.example.com#a']
OTHERS = ['https://rp0.example.org/', 'https://rp1.example.org/cb', 'client id', 'x']
ITEMS = ['a', 'b', 'seed', 'https://x/?y']
AFS = 'oidcmsg.storage.abfile.AbstractFileSystem'
LAFS = 'oidcmsg.storage.abfile.LabeledAbstractFileSystem'


def fixture(spec):
    return dict(KEYS[spec[0]][spec[1]])


def gen_context(rng, plan, many):
    """Configurations of one or several contexts"""
    plan['keydir'] = rng.choice(['db/{issuer}/keyjar', 'keyjar/{issuer}', 'db/{issuer}.keys'])
    plan['datadir'] = rng.choice(['db/{issuer}/data', 'data/{issuer}'] + ([] if many else ['db']))
    plan['labelled'] = int(rng.random() < 0.4)
    plan['box'] = rng.choice([None, 'listed', 'default'])
    plan['source'] = rng.choice(['jwks', 'jwks', 'jwks', 'path', 'none'])
    plan['entity'] = int(rng.random() < 0.75)
    plan['nokid'] = int(rng.random() < 0.2)
    plan['samekid'] = int(not plan['nokid'] and rng.random() < 0.2)


def config(plan, who, issuer, extra=()):
    """Who: number of the context, decides which keys. Extra: more keys"""
    def store(fdir, conv, label):
        c = {'handler': AFS, 'fdir': fdir, 'key_conv': 'oidcmsg.storage.converter.QPKey', 'value_conv': conv}
        if label and plan['labelled']:
            c.update({'handler': LAFS, 'label': label})
        return c

    conf = {
        'issuer': issuer,
        'db_conf': {
            'keyjar': store(plan['keydir'], 'cryptojwt.serialize.item.KeyIssuer', 'keyjar'),
            'default': store(plan['datadir'], 'oidcmsg.storage.converter.JSON', 'default')
        }
    }
    if plan['box'] == 'listed':
        conf['db_conf']['client'] = store('%s.c' % plan['datadir'], 'oidcmsg.storage.converter.JSON', 'client')
        if plan['datadir'] == 'db':
            conf['db_conf']['client']['fdir'] = 'client'
    if plan['source'] == 'jwks':
        conf['jwks'] = {'keys': own_keys(plan, who, extra)}
    elif plan['source'] == 'path':
        conf['keys'] = {'private_path': 'private%d.json' % who, 'read_only': False, 'uri_path': 'static/jwks.json',
                        'key_defs': [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}]}
    return conf


def own_keys(plan, who, extra=()):
    res = []
    for spec in plan['own'][who] + list(extra):
        k = fixture(spec)
        if plan['samekid']:
            k['kid'] = 'kid'
        if plan['nokid']:
            k.pop('kid')
        res.append(k)
    return res


def start(plan, who, issuer, extra=(), db_conf=None):
    """Db_conf: that all contexts of the process have in common"""
    from oidcmsg.context import OidcContext
    conf = copy.deepcopy(config(plan, who, issuer, extra))
    if db_conf is not None:
        if not db_conf:
            db_conf.update(conf['db_conf'])
        conf['db_conf'] = db_conf
    ctx = OidcContext(conf, entity_id=issuer if plan['entity'] else '')
    if plan['box']:
        ctx.add_boxes({'client': 'cdb'}, ctx.db_conf)
    return ctx


def canon_key(key):
    d = key.serialize(private=True)
    return json.dumps({k: v for k, v in d.items() if k not in ('kid', 'use')}, sort_keys=True)


def canon_jwk(d):
    return json.dumps({k: v for k, v in d.items() if k not in ('kid', 'use')}, sort_keys=True)


def keys_of(ctx, owner):
    """What the key jar has, every key as often as it is there"""
    if owner not in ctx.keyjar:
        return []
    return sorted(canon_key(k) for k in ctx.keyjar.get_issuer_keys(owner))


def gen_item(rng, u, key):
    if key == 'seed':
        return 's%d' % u
    if rng.random() < 0.3:
        # alike, but not the same
        return rng.choice([1, True, 1.0, 0, False, 0.0, '', '1', 'true', [], {}, [1], [True], {'u': 1}, {'u': 1.0}])
    return rng.choice(['v%d' % u, {'u': u}, [u, None, True], {'message': 'https://x/%d' % u}, {'å': [u, {}]}])


def to_store(v):
    if isinstance(v, dict) and 'message' in v:
        from oidcmsg.oauth2 import AuthorizationRequest
        return AuthorizationRequest(client_id='c', response_type='code', state=v['message'], scope=['a', 'b'])
    return v


def as_read(key, v):
    """What get() gives for what set() was given"""
    if isinstance(v, dict) and 'message' in v:
        return {'client_id': 'c', 'response_type': 'code', 'state': v['message'], 'scope': 'a b'}
    if key == 'seed':
        return v.encode()
    return v


class Model:
    """What one entity has stored. Where a crash interrupted something there are several possibilities."""

    def __init__(self, plan, who, issuer):
        self.plan = plan
        self.who = who
        self.issuer = issuer
        self.items = {}  # key -> set of possible values as JSON, None is nothing
        self.box = {}
        self.keys = {}  # owner -> list of key lists that are possible
        self.own = None
        self.started = False
        self.entity = issuer if plan['entity'] else ''
        self.extra = []  # keys added to the configuration since

    def begun(self, ctx):
        """A context has been started"""
        plan = self.plan
        want = None
        if plan['source'] == 'jwks':
            want = sorted(canon_jwk(k) for k in own_keys(plan, self.who, self.extra))
        elif plan['source'] == 'path':
            want = self.own
        else:
            want = []
        got = keys_of(ctx, '')
        if want is None:
            want = got
            if len(got) != 1:
                raise Violation('own-keys', 'started with %d keys of its own' % len(got))
        self.own = want
        for owner in ['', self.entity]:
            got = keys_of(ctx, owner)
            if got != want:
                raise Violation('own-keys', 'after %s start there are %d keys under %r, should be the %d configured '
                                'ones' % ('another' if self.started else 'the first', len(got), owner, len(want)))
        self.started = True
        self.check_keys(ctx)

    def check_keys(self, ctx):
        expect = set(k for k, v in self.keys.items() if [] not in v)
        maybe = set(k for k, v in self.keys.items() if [] in v)
        if self.own:
            expect |= {'', self.entity}
        got = set(ctx.keyjar.owners())
        if not expect <= got or not got <= expect | maybe:
            raise Violation('owners', 'keys of %s in the key jar of %s, should be %s' % (
                sorted(got), self.issuer, sorted(expect)))
        for owner in ['', self.entity]:
            if keys_of(ctx, owner) != self.own:
                raise Violation('own-keys', 'the keys under %r are not those of %s' % (owner, self.issuer))
        for owner, possible in self.keys.items():
            got = keys_of(ctx, owner)
            if got not in possible:
                raise Violation('keys', '%d keys of %r in the key jar of %s, should be %s' % (
                    len(got), owner, self.issuer, ' or '.join(str(len(p)) for p in possible)))
            self.keys[owner] = [got]

    def possible(self, d, k):
        return d.setdefault(k, {None})

    def read(self, d, k, got, what):
        """got: JSON or None"""
        if got not in self.possible(d, k):
            raise Violation('item', '%s(%r) of %s is %s, should be %s' % (
                what, k, self.issuer, got, ' or '.join(map(str, sorted(self.possible(d, k), key=str)))))
        d[k] = {got}


def do(op, ctx, model, sim):
    """
    One operation. The model is brought up to date before (both are possible) and after (only the new one is).
    """
    o, k = op['o'], op.get('k')
    sim.event('op', op['u'], o, k)
    if o == 'set':
        new = json.dumps(jsonable(as_read(k, op['v'])), sort_keys=True)
        model.possible(model.items, k).add(new)
        ctx.set(k, to_store(op['v']))
        model.items[k] = {new}
    elif o == 'get':
        try:
            got = ctx.get(k)
        except KeyError:
            got = None
        except TypeError:
            # a labelled store has None for what is not there, which is no seed
            if k != 'seed' or not model.plan['labelled']:
                raise
            got = None
        model.read(model.items, k, None if got is None else json.dumps(jsonable(got), sort_keys=True), 'get')
    elif o == 'boxset':
        new = json.dumps(op['v'], sort_keys=True)
        d = model.box if model.plan['box'] == 'listed' else model.items
        model.possible(d, k).add(new)
        ctx.cdb[k] = op['v']
        d[k] = {new}
    elif o == 'boxget':
        d = model.box if model.plan['box'] == 'listed' else model.items
        got = ctx.cdb.get(k)
        model.read(d, k, None if got is None else json.dumps(got, sort_keys=True), 'box')
    elif o == 'import':
        before = model.keys.setdefault(k, [[]])
        key = fixture(op['v'])
        model.keys[k] = before + [sorted(b + [canon_jwk(key)]) for b in before]
        ctx.keyjar.import_jwks({'keys': [key]}, k)
        model.keys[k] = [p for p in model.keys[k] if canon_jwk(key) in p]
    elif o == 'keys':
        model.check_keys(ctx)


def jsonable(v):
    return {'bytes': v.decode()} if isinstance(v, bytes) else v


def gen_ops(rng, plan, u, n, used):
    ops = []
    w = {'set': 4, 'get': 3, 'import': 2, 'keys': 2, 'restart': 1.5}
    if plan['box']:
        w.update({'boxset': 1.5, 'boxget': 1.5})
    names, weights = list(w), list(w.values())
    for _ in range(n):
        o = rng.choices(names, weights)[0]
        op = {'u': u, 'o': o}
        if o in ('set', 'get'):
            op['k'] = rng.choice(ITEMS)
        elif o in ('boxset', 'boxget'):
            op['k'] = rng.choice(ITEMS[:2])
        elif o == 'import':
            op['k'] = rng.choice(OTHERS)
            op['v'] = ['EC', 6 + used[0] % 10]
            used[0] += 1
            if used[0] > 10:
                op = {'u': u, 'o': 'keys'}
        if o == 'set':
            op['v'] = gen_item(rng, u, op['k'])
        elif o == 'boxset':
            op['v'] = {'box': u}
        ops.append(op)
        u += 1
    return ops, u
