""" Stand-in for crypto.hash.md5Hash over the platform's hashlib """
import hashlib
from crypto.hash.hash import Hash


class MD5(Hash):
    def __init__(self):
        self.name = 'MD5'
        self.blocksize = 1
        self.raw_block_size = 64
        self.digest_size = 16
        self.reset()

    def reset(self):
        self._h = hashlib.md5()

    def update(self, data):
        self._h.update(data)

    def digest(self):
        return self._h.copy().digest()
