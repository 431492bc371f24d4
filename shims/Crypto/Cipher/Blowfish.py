""" A block cipher with 64 bit blocks and the interface of the PyCrypto modules,
    from the JVM, for code that has to refuse it. """
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec
from .AES import _jbytes

MODE_ECB = 1
block_size = 8


class _Blowfish(object):
    block_size = 8

    def __init__(self, key):
        self._e = Cipher.getInstance('Blowfish/ECB/NoPadding')
        self._e.init(Cipher.ENCRYPT_MODE, SecretKeySpec(_jbytes(key), 'Blowfish'))

    def encrypt(self, data):
        if len(data) % 8:
            raise ValueError('Input strings must be a multiple of 8 in length')
        return ''.join([chr(b & 255) for b in self._e.doFinal(_jbytes(data))]) if data else ''


def new(key, mode=MODE_ECB, *args, **kwargs):
    return _Blowfish(key)
