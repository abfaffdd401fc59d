"""Makes fixtures/keys.json. Run once, what it made is committed."""
import json
import os

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import new_rsa_key

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {'EC': [], 'RSA': [], 'oct': []}
for i in range(16):
    k = new_ec_key('P-256', use='sig', kid='ec%d' % i)
    out['EC'].append(k.serialize(private=True))
for i in range(8):
    k = new_rsa_key(use='sig', kid='rsa%d' % i)
    out['RSA'].append(k.serialize(private=True))
for i in range(8):
    k = SYMKey(use='sig', key=os.urandom(24).hex(), kid='oct%d' % i)
    out['oct'].append(k.serialize(private=True))
out['ENC'] = []
for i in range(6):
    k = new_rsa_key(use='enc', kid='enc%d' % i)
    out['ENC'].append(k.serialize(private=True))
with open(os.path.join(HERE, 'fixtures', 'keys.json'), 'w') as fp:
    json.dump(out, fp, indent=0)
