import os, struct, base64, hmac, hashlib
import time as _time
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec, IvParameterSpec
from java.lang import String

class InvalidToken(Exception):
    pass

def tob(s):
    return String(s).getBytes('ISO-8859-1')

def froms(b):
    return b.tostring() if hasattr(b, 'tostring') else ''.join(chr(x & 255) for x in b)

class Fernet(object):
    def __init__(self, key, backend=None):
        raw = base64.urlsafe_b64decode(str(key))
        if len(raw) != 32:
            raise ValueError('Fernet key must be 32 url-safe base64-encoded bytes.')
        self.sign, self.enc = raw[:16], raw[16:]

    @classmethod
    def generate_key(cls):
        return base64.urlsafe_b64encode(os.urandom(32))

    def _cipher(self, mode, iv):
        c = Cipher.getInstance('AES/CBC/PKCS5Padding')
        c.init(mode, SecretKeySpec(tob(self.enc), 'AES'), IvParameterSpec(tob(iv)))
        return c

    def encrypt(self, data):
        if isinstance(data, unicode):
            raise TypeError('data must be bytes.')
        iv = os.urandom(16)
        ct = froms(self._cipher(Cipher.ENCRYPT_MODE, iv).doFinal(tob(data)))
        body = '\x80' + struct.pack('>Q', int(_time.time())) + iv + ct
        return base64.urlsafe_b64encode(body + hmac.new(self.sign, body, hashlib.sha256).digest())

    def decrypt(self, token, ttl=None):
        if isinstance(token, unicode):
            raise TypeError('token must be bytes.')
        try:
            data = base64.urlsafe_b64decode(token)
        except TypeError:
            raise InvalidToken
        if len(data) < 57 or data[0] != '\x80':
            raise InvalidToken
        body, mac = data[:-32], data[-32:]
        if hmac.new(self.sign, body, hashlib.sha256).digest() != mac:
            raise InvalidToken
        if ttl is not None and struct.unpack('>Q', data[1:9])[0] + ttl < _time.time():
            raise InvalidToken
        try:
            return froms(self._cipher(Cipher.DECRYPT_MODE, body[9:25]).doFinal(tob(body[25:])))
        except Exception:
            raise InvalidToken
