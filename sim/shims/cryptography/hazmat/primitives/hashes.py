import hashlib
class SHA256(object):
    name = 'sha256'
    digest_size = 32
    block_size = 64
class Hash(object):
    def __init__(self, algorithm, backend=None):
        self._h = hashlib.sha256()
    def update(self, d): self._h.update(d)
    def finalize(self): return self._h.digest()
