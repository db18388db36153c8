import base64
from cryptography.hazmat.primitives.asymmetric import rsa
from java.security import KeyFactory
from java.security.spec import PKCS8EncodedKeySpec, X509EncodedKeySpec
from jarray import array

class Encoding(object):
    PEM = 'PEM'
class PrivateFormat(object):
    PKCS8 = 'PKCS8'
class PublicFormat(object):
    SubjectPublicKeyInfo = 'SPKI'
class NoEncryption(object):
    pass

def _body(pem, label):
    if isinstance(pem, unicode):
        raise TypeError('data must be bytes')
    begin, end = '-----BEGIN %s-----' % label, '-----END %s-----' % label
    i, j = pem.find(begin), pem.find(end)
    if i < 0 or j < 0:
        raise ValueError('Could not deserialize key data.')
    return base64.b64decode(''.join(pem[i + len(begin):j].split()))

def _tob(s):
    return array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in s], 'b')

_cache = {}
def _load(kind, der):
    key = _cache.get((kind, der))
    if key is None:
        try:
            kf = KeyFactory.getInstance('RSA')
            if kind == 'priv':
                k = kf.generatePrivate(PKCS8EncodedKeySpec(_tob(der)))
                key = rsa.PrivateKey(k.getModulus(), k.getPublicExponent(), k.getPrivateExponent(), der)
            else:
                k = kf.generatePublic(X509EncodedKeySpec(_tob(der)))
                key = rsa.PublicKey(k.getModulus(), k.getPublicExponent())
        except Exception as e:
            raise ValueError('Could not deserialize key data. %s' % e)
        except BaseException as e:
            if e.__class__.__module__.startswith('java'):
                raise ValueError('Could not deserialize key data. %s' % e)
            raise
        _cache[(kind, der)] = key
    return key

def load_pem_private_key(data, password=None, backend=None):
    return _load('priv', _body(data, 'PRIVATE KEY'))

def load_pem_public_key(data, backend=None):
    return _load('pub', _body(data, 'PUBLIC KEY'))
