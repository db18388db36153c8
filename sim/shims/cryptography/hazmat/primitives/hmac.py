from __future__ import absolute_import
import hashlib
import hmac as _hmac
from cryptography.exceptions import InvalidSignature
class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        if isinstance(key, unicode):
            raise TypeError('key must be bytes')
        self._h = _hmac.new(key, digestmod=hashlib.sha256)
    def update(self, d): self._h.update(d)
    def finalize(self): return self._h.digest()
    def verify(self, signature):
        if isinstance(signature, unicode):
            raise TypeError('signature must be bytes.')
        if self._h.digest() != signature:
            raise InvalidSignature('Signature did not match digest.')
