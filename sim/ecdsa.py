"""
ECDSA with P-256 and the nonce of RFC 6979, so that a run signs the same way every time, and RSA-OAEP with a seed that
comes from the simulated os.urandom. Only signing and encryption; verification and decryption are done by what is
installed.
"""
import hashlib
import hmac
import os

P = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
B = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
GX = 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
GY = 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5

_TABLE = []


def _table():
    x, y = GX, GY
    for _ in range(256):
        _TABLE.append((x, y))
        s = (3 * x * x - 3) * pow(2 * y, -1, P) % P
        x3 = (s * s - 2 * x) % P
        x, y = x3, (s * (x - x3) - y) % P


def mult_x(k):
    """x coordinate of k*G"""
    if not _TABLE:
        _table()
    X, Y, Z = 0, 0, 0  # nothing yet
    i = 0
    while k:
        if k & 1:
            x2, y2 = _TABLE[i]
            if Z == 0:
                X, Y, Z = x2, y2, 1
            else:
                zz = Z * Z % P
                h = (x2 * zz - X) % P
                r = (y2 * zz * Z - Y) % P
                h2 = h * h % P
                h3 = h * h2 % P
                v = X * h2 % P
                X3 = (r * r - h3 - 2 * v) % P
                Y = (r * (v - X3) - Y * h3) % P
                X, Z = X3, Z * h % P
        k >>= 1
        i += 1
    zi = pow(Z, -1, P)
    return X * zi * zi % P


def _nonce(d, h1):
    x = d.to_bytes(32, 'big')
    h = (int.from_bytes(h1, 'big') % N).to_bytes(32, 'big')
    V, K = b'\x01' * 32, b'\x00' * 32
    K = hmac.new(K, V + b'\x00' + x + h, hashlib.sha256).digest()
    V = hmac.new(K, V, hashlib.sha256).digest()
    K = hmac.new(K, V + b'\x01' + x + h, hashlib.sha256).digest()
    V = hmac.new(K, V, hashlib.sha256).digest()
    while True:
        V = hmac.new(K, V, hashlib.sha256).digest()
        k = int.from_bytes(V, 'big')
        if 1 <= k < N:
            return k
        K = hmac.new(K, V + b'\x00', hashlib.sha256).digest()
        V = hmac.new(K, V, hashlib.sha256).digest()


def sign(msg, d):
    h1 = hashlib.sha256(msg).digest()
    k = _nonce(d, h1)
    r = mult_x(k) % N
    s = pow(k, -1, N) * (int.from_bytes(h1, 'big') + r * d) % N
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def _mask(data, seed):
    out = b''
    n = 0
    while len(out) < len(data):
        out += hashlib.sha1(seed + n.to_bytes(4, 'big')).digest()
        n += 1
    return bytes(a ^ b for a, b in zip(data, out))


def oaep(msg, n, e):
    """RFC 8017, 7.1.1, with SHA-1 and no label"""
    k = (n.bit_length() + 7) // 8
    db = hashlib.sha1(b'').digest() + b'\x00' * (k - len(msg) - 42) + b'\x01' + msg
    seed = os.urandom(20)
    masked = _mask(db, seed)
    em = b'\x00' + _mask(seed, masked) + masked
    return pow(int.from_bytes(em, 'big'), e, n).to_bytes(k, 'big')


def remember_keys():
    """OpenSSL takes milliseconds to make sure a private RSA key is one. Once per key is enough."""
    from cryptojwt.jwk import rsa
    real = rsa.rsa_construct_private
    known = {}

    def construct(numbers):
        n = tuple(sorted(numbers.items()))
        if n not in known:
            known[n] = real(numbers)
        return known[n]

    rsa.rsa_construct_private = construct


def install():
    """Instead of those of cryptojwt, for P-256 and RSA-OAEP"""
    from cryptojwt.jws import dsa
    real = dsa.ECDSASigner.sign

    def seam(self, msg, key):
        if self.algorithm != 'ES256':
            return real(self, msg, key)
        self._cross_check(key.public_key())
        return sign(msg, key.private_numbers().private_value)

    dsa.ECDSASigner.sign = seam

    from cryptojwt.jwe import rsa
    really = rsa.RSAEncrypter.encrypt

    def sealed(self, msg, key, sign_padding='pkcs1_padding'):
        if sign_padding != 'pkcs1_oaep_padding':
            return really(self, msg, key, sign_padding)
        if hasattr(key, 'private_numbers'):
            key = key.public_key()
        num = key.public_numbers()
        return oaep(msg, num.n, num.e)

    rsa.RSAEncrypter.encrypt = sealed
    remember_keys()
    _table()
