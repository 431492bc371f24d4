""" Stand-in for crypto.hash.sha1Hash over the platform's hashlib """
import hashlib
from crypto.hash.hash import Hash


class SHA1(Hash):
    def __init__(self):
        self.name = 'SHA1'
        self.blocksize = 1
        self.raw_block_size = 64
        self.digest_size = 20
        self.reset()

    def reset(self):
        self._h = hashlib.sha1()

    def update(self, data):
        self._h.update(data)

    def digest(self):
        return self._h.copy().digest()
