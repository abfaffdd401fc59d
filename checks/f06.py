"""
F06: what happens to one entry's file on disc stays with that entry.

Two handles. Between operations files are truncated, overwritten with garbage, zeroed, emptied, removed, replaced
by a directory or edited by someone else. All other entries have to be as they were and a damaged one either reads
as what the file now holds or as an error, until it is written or deleted.
"""
import json
import os

from checks.f03 import wrap
from checks.fcommon import JSON
from checks.fcommon import ODD_KEYS
from checks.fcommon import PLAIN_KEYS
from checks.fcommon import Violation
from checks.fcommon import advance_past_granularity
from checks.fcommon import canon
from checks.fcommon import conf
from checks.fcommon import gen_value
from checks.fcommon import open_store
from checks.fcommon import shorten_values
from sim import vfs

PROPERTY = 'F06'
RUNS = {'quick': 25000, 'thorough': 500000}
RULE = ('6-30 operations through two handles on 2-5 keys, about every fourth is damage done to one file behind the '
        'back of the storage (8 kinds); non-trivial: a damaged or edited entry was accessed afterwards; distinct by '
        'event log')
REAL = ['oidcmsg.storage (abfile, converter, init, utils)', 'filelock (on flock of the real kernel)', 'CPython io']
STUBS = ['the damage', 'clock, time stamps, inode numbers, directory order, uuid/urandom']
ASSUMPTIONS = ['damage is visible in the time stamp of the file (as for every write)',
               'len() and "in" may count a damaged entry or not']
PROBES = ('bad-read-error', 'bad-repaired', 'bad-deleted', 'opened-with-bad', 'edit-seen', 'listed-with-bad')
SHRINK = ('ops',)
simplify = shorten_values

BAD = ('bad',)
KI = 'cryptojwt.serialize.item.KeyIssuer'
# What a file may have in it that is JSON, or almost
TEXTS = ['{"x": 1}', '[]', '{}', 'null', '42', '"text"', '[1, 2', '{"bundles": 3}', '{"bundles": [{}]}', '{"bundles": null}',
         '{"bundles": [{"keys": 7}]}', '{"bundles": [{"keys": [{"kty": "RSA"}]}]}', 'true', '"\\ud800"', 'NaN', '1e999',
         '[' * 100000, '{"a":' * 50000, '9' * 5000, '{"bundles": [{"keys": [{"kty": "oct", "k": "a"}]}]}']
DIR = ('dir',)


def gen(rng, tier, index):
    plan = {'mtime_gran_ns': 1, 'tick_ns': 1000, 'list_seed': rng.randrange(1 << 30),
            'id_seed': rng.randrange(1 << 30)}
    plan['value_conv'] = rng.choice([JSON, JSON, JSON, '', KI, KI])
    plan['key_conv'] = ''
    nk = rng.randrange(2, 6)
    keys = rng.sample(ODD_KEYS, nk) if rng.random() < 0.2 else PLAIN_KEYS[:nk]
    if len(keys) < nk:
        keys.append('e')
    plan['keys'] = keys
    w = {'set': 3, 'get': 2, 'getitem': 3, 'in': 0.7, 'del': 1.5, 'update': 0.5, 'clear': 0.2, 'len': 0.7,
         'keys': 1, 'items': 2, 'reopen': 1.5, 'damage': 5}
    names, weights = list(w), list(w.values())
    ops = [{'u': 900 + i, 'o': 'set', 'h': 0, 'k': k, 'v': gen_value(rng, 900 + i, plan['value_conv'] if plan['value_conv'] != KI else '', 1 if plan['value_conv'] == KI else None)}
           for i, k in enumerate(keys) if rng.random() < 0.8]
    for u in range(rng.randrange(6, 31)):
        o = rng.choices(names, weights)[0]
        op = {'u': u, 'o': o, 'h': rng.randrange(2)}
        if o in ('set', 'get', 'getitem', 'in', 'del', 'damage'):
            op['k'] = rng.choice(keys)
        if o == 'set':
            op['v'] = 'v%d' % u if plan['value_conv'] == KI else gen_value(rng, u, plan['value_conv'])
        elif o == 'update':
            op['kv'] = [[k, 'u%03d%d' % (u, i)] for i, k in enumerate(rng.sample(keys, rng.randrange(1, nk + 1)))]
        elif o == 'damage':
            op['how'] = rng.choice(['trunc', 'trunc', 'empty', 'garbage', 'binary', 'zero', 'remove', 'dir', 'edit',
                                    'edit', 'flip', 'text', 'text'])
            op['text'] = rng.randrange(len(TEXTS))
            op['at'] = round(rng.random(), 3)
        ops.append(op)
    plan['ops'] = ops
    return plan


def decode(raw, plan):
    try:
        text = raw.decode('utf-8').replace('\r\n', '\n').replace('\r', '\n').strip()
        if plan['value_conv'] == JSON:
            return canon(json.loads(text))
        if plan['value_conv'] == KI:
            from cryptojwt.serialize.item import KeyIssuer
            return show(KeyIssuer().deserialize(text))
        return canon(text)
    except Exception:
        return BAD


def show(v):
    """For comparing values"""
    return canon(v.dump() if hasattr(v, 'dump') else v)


def value(v, plan):
    if plan['value_conv'] != KI:
        return v
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_issuer import KeyIssuer
    iss = KeyIssuer(name='n')
    iss.add_kb(KeyBundle([{'kty': 'oct', 'k': 'c2VjcmV0' * 6, 'use': 'sig', 'kid': '%s' % (v,)}]))
    return iss


def damage(env, plan, op, fname):
    """
    :return: what the entry is afterwards: None if it isn't there
    """
    sim = env.sim
    path = os.path.join(env.fs.root, 'db', fname)
    how = op['how']
    st = env.fs.lst(path)
    isdir = os.path.isdir(path)
    advance_past_granularity(env)
    sim.fire('damage-%s' % how)

    def remove():
        if isdir:
            vfs.R['os.rmdir'](path)
        elif st is not None:
            vfs.R['os.unlink'](path)
        env.fs.gone(st)

    if how == 'remove':
        remove()
        return None
    if how == 'dir':
        remove()
        vfs.R['os.mkdir'](path)
        return DIR
    old = b'' if st is None or isdir else vfs.R['open'](path, 'rb').read()
    if how == 'trunc':
        raw = old[:int(len(old) * op['at'])]
    elif how == 'empty':
        raw = b''
    elif how == 'garbage':
        raw = b'{"x": [1, 2'
    elif how == 'binary':
        raw = b'\xff\xfe\x80' + old
    elif how == 'zero':
        raw = b'\0' * max(len(old), 4)
    elif how == 'flip':
        i = int(len(old) * op['at'])
        raw = old[:i] + bytes([b ^ 0x15 for b in old[i:i + 1]]) + old[i + 1:]
    elif how == 'text':
        raw = TEXTS[op['text']].encode()
    else:
        raw = json.dumps({'edited': op['u']}).encode()
    if isdir:
        remove()
    with vfs.R['open'](path, 'wb') as fp:
        fp.write(raw)
    rec = env.fs.inode(vfs.R['lstat'](path).st_ino)
    rec['m'] = rec['c'] = env.fs.stamp()
    advance_past_granularity(env)
    return decode(raw, plan)


def run(env, plan):
    sim = env.start()
    errors = []
    keys = plan['keys']
    model = {}  # canonical value, BAD or DIR
    touched = set()
    count = {'n': 0}

    def fname(k):
        from oidcmsg.storage.converter import QPKey
        return QPKey().serialize(k)

    def good():
        return {k: v for k, v in model.items() if v not in (BAD, DIR)}

    def one(s, o, h, k, u):
        m = model.get(k)
        if k in touched:
            count['n'] += 1
        try:
            res = s[k] if o == 'getitem' else s.get(k, 'nothing here')
        except KeyError:
            if m is not None and m != DIR and m != BAD:
                raise Violation('lost', 'KeyError for %r (handle %d), should be %.80s' % (k, h, m))
            return
        except Exception as err:
            if m == BAD:
                sim.probe('bad-read-error')
                return
            raise Violation('error', '%s %r by handle %d: %r, should be %.80s' % (o, k, h, err, m))
        if m == BAD:
            raise Violation('bad-data', '%s %r by handle %d gave %.80r but the file is damaged' % (o, k, h, res))
        if m is None or m == DIR:
            if o == 'get' and res == 'nothing here':
                return
            raise Violation('bad-data', '%s %r by handle %d gave %.80r but there is no such entry' % (o, k, h, res))
        if show(res) != m:
            raise Violation('bad-data', '%s %r by handle %d gave %.80r, should be %.80s' % (o, k, h, res, m))
        if k in touched:
            sim.probe('edit-seen')

    hs = [open_store(conf(plan)), open_store(conf(plan))]
    final = [{'u': 1000 + i, 'o': o, 'h': i % 2} for i, o in enumerate(['items', 'items', 'reopen', 'items', 'keys'])]
    for op in plan['ops'] + final + [{'u': 2000 + i, 'o': 'getitem', 'h': i % 2, 'k': k}
                                     for i, k in enumerate(keys + keys)]:
        o, h, k = op['o'], op['h'], op.get('k')
        s = hs[h]
        sim.event('op', op['u'], o, k, h)
        bad = any(v in (BAD, DIR) for v in model.values())
        try:
            if o == 'damage':
                res = damage(env, plan, op, fname(k))
                if res is None:
                    model.pop(k, None)
                else:
                    model[k] = res
                touched.add(k)
            elif o == 'set':
                if model.get(k) == DIR:
                    continue
                v = value(op['v'], plan)
                s[k] = v
                if model.get(k) == BAD:
                    sim.probe('bad-repaired')
                model[k] = show(v)
                touched.discard(k)
            elif o == 'update':
                kv = [x for x in op['kv'] if model.get(x[0]) != DIR]
                kv = [(kk, value(vv, plan)) for kk, vv in kv]
                s.update({kk: vv for kk, vv in kv})
                for kk, vv in kv:
                    model[kk] = show(vv)
                    touched.discard(kk)
            elif o == 'del':
                del s[k]
                if model.get(k) == BAD:
                    sim.probe('bad-deleted')
                if model.get(k) != DIR:
                    model.pop(k, None)
                    advance_past_granularity(env)
            elif o == 'clear':
                s.clear()
                for kk in [kk for kk in model if model[kk] != DIR]:
                    del model[kk]
                advance_past_granularity(env)
            elif o in ('get', 'getitem'):
                one(s, o, h, k, op['u'])
            elif o == 'in':
                res = k in s
                m = model.get(k)
                if m != BAD and res != (m is not None and m != DIR):
                    raise Violation('in', '%r in store is %s' % (k, res))
            elif o == 'len':
                n, nb = len(s), sum(1 for v in model.values() if v == BAD)
                if not len(good()) <= n <= len(good()) + nb:
                    raise Violation('len', 'len is %d, %d entries and %d damaged' % (n, len(good()), nb))
            elif o in ('keys', 'items'):
                res = list(s.keys()) if o == 'keys' else list(s.items())
                names = [x if o == 'keys' else x[0] for x in res]
                if bad:
                    sim.probe('listed-with-bad')
                must = set(good())
                can = must | ({kk for kk, v in model.items() if v == BAD} if o == 'keys' else set())
                if len(set(names)) != len(names) or not must <= set(names) <= can:
                    raise Violation('listing', '%s of handle %d: %r, should be %r' % (o, h, names, sorted(must)))
                if o == 'items':
                    for kk, vv in res:
                        if show(vv) != model[kk]:
                            raise Violation('listing', '%r is %.80r, should be %.80s' % (kk, vv, model[kk]))
            elif o == 'reopen':
                hs[h] = open_store(conf(plan))
                if bad:
                    sim.probe('opened-with-bad')
        except Violation:
            raise
        except Exception as err:
            raise Violation('error-%s' % type(err).__name__, '%s %r by handle %d: %r' % (o, k, h, err))
    return {'nontrivial': count['n'] > 0}
