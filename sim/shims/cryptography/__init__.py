'''Stand-in for the "cryptography" package (absent from this sandbox), over javax.crypto.

SHA-256, HMAC-SHA256, Fernet (AES-128-CBC + HMAC), RSA-OAEP-SHA256 and PEM handling are real;
x509 certificates are a stub, because TLS itself is simulated.  Every random byte comes from
os.urandom, which the simulator seeds.
'''
