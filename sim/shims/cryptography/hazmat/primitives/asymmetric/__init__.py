import rsa, padding
