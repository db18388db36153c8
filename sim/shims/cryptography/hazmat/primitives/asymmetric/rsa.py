import os, base64, hashlib
from java.math import BigInteger
from java.security import KeyFactory
from java.security.spec import RSAPublicKeySpec
from binascii import hexlify, unhexlify

def _int(b):
    return int(hexlify(b), 16)

def _bytes(n, k):
    return unhexlify('%0*x' % (2 * k, n))

def _xor(a, b):
    return ''.join(chr(ord(x) ^ ord(y)) for x, y in zip(a, b))

def _mgf(seed, n):
    out, i = '', 0
    while len(out) < n:
        out += hashlib.sha256(seed + chr(i >> 24 & 255) + chr(i >> 16 & 255) + chr(i >> 8 & 255) + chr(i & 255)).digest()
        i += 1
    return out[:n]

HLEN = 32
LHASH = hashlib.sha256('').digest()

def _pem(label, der):
    b = base64.b64encode(der)
    lines = [b[i:i + 64] for i in range(0, len(b), 64)]
    return '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, '\n'.join(lines), label)

class PublicKey(object):
    def __init__(self, n, e):
        self.n, self.e = n, e
        self.k = (n.bit_length() + 7) // 8

    def encrypt(self, msg, padding):
        if isinstance(msg, unicode):
            raise TypeError('plaintext must be bytes')
        k = self.k
        if len(msg) > k - 2 * HLEN - 2:
            raise ValueError('Data too long for key size.')
        db = LHASH + '\x00' * (k - len(msg) - 2 * HLEN - 2) + '\x01' + msg
        seed = os.urandom(HLEN)
        mdb = _xor(db, _mgf(seed, k - HLEN - 1))
        mseed = _xor(seed, _mgf(mdb, HLEN))
        return _bytes(pow(_int('\x00' + mseed + mdb), self.e, self.n), k)

    def public_bytes(self, encoding=None, format=None):
        k = KeyFactory.getInstance('RSA').generatePublic(RSAPublicKeySpec(self.n, self.e))
        return _pem('PUBLIC KEY', k.getEncoded().tostring())

class PrivateKey(object):
    def __init__(self, n, e, d, der):
        self.n, self.e, self.d, self.der = n, e, d, der
        self.k = (n.bit_length() + 7) // 8

    def public_key(self):
        return PublicKey(self.n, self.e)

    def private_bytes(self, encoding=None, format=None, encryption_algorithm=None):
        return _pem('PRIVATE KEY', self.der)

    def decrypt(self, ct, padding):
        k = self.k
        if len(ct) != k:
            raise ValueError('Ciphertext length must be equal to key size.')
        em = _bytes(pow(_int(ct), self.d, self.n), k)
        mseed, mdb = em[1:1 + HLEN], em[1 + HLEN:]
        seed = _xor(mseed, _mgf(mdb, HLEN))
        db = _xor(mdb, _mgf(seed, k - HLEN - 1))
        rest = db[HLEN:].lstrip('\x00')
        if em[0] != '\x00' or db[:HLEN] != LHASH or rest[:1] != '\x01':
            raise ValueError('Decryption failed.')
        return rest[1:]

# key generation takes keys from a fixed pool: the simulator sets it
POOL = []
def generate_private_key(public_exponent=65537, key_size=4096, backend=None):
    from cryptography.hazmat.primitives import serialization
    return serialization.load_pem_private_key(POOL[ord(os.urandom(1)) % len(POOL)])
