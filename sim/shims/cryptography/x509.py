# stub: certificates are never inspected, because TLS is simulated
OID_COMMON_NAME = 'commonName'
class Name(object):
    def __init__(self, attrs): self.attrs = attrs
class NameAttribute(object):
    def __init__(self, oid, value): self.oid, self.value = oid, value
class BasicConstraints(object):
    def __init__(self, ca, path_length): pass
class _Cert(object):
    def public_bytes(self, encoding=None):
        return '-----BEGIN CERTIFICATE-----\nc2ltdWxhdGVk\n-----END CERTIFICATE-----\n'
class CertificateBuilder(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self
    def sign(self, private_key=None, algorithm=None, backend=None):
        return _Cert()
