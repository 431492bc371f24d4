""" More hashes of the crypto.hash convention, over the platform's hashlib """
import hashlib
from crypto.hash.hash import Hash


def make(name, block, size):
    class H(Hash):
        def __init__(self):
            self.name = name.upper()
            self.blocksize = 1
            self.raw_block_size = block
            self.digest_size = size
            self.reset()

        def reset(self):
            self._h = hashlib.new(name)

        def update(self, data):
            self._h.update(data)

        def digest(self):
            return self._h.copy().digest()
    H.__name__ = name.upper()
    return H


SHA224 = make('sha224', 64, 28)
SHA256 = make('sha256', 64, 32)
SHA384 = make('sha384', 128, 48)
SHA512 = make('sha512', 128, 64)
