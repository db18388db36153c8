import hashes, hmac, serialization
