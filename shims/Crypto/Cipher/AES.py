""" Stand-in for PyCrypto's Crypto.Cipher.AES (not installed here): the block
    cipher only, in ECB mode, provided by the JVM (javax.crypto).  It plays the
    part of the trusted platform primitive that cryptopy builds CMAC and SIV on.
"""
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec
from jarray import array

MODE_ECB = 1
block_size = 16
key_size = (16, 24, 32)


def _jbytes(s):
    return array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in s], 'b')


class _AES(object):
    block_size = 16

    def __init__(self, key):
        if len(key) not in key_size:
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        self._k = SecretKeySpec(_jbytes(key), 'AES')
        self._e = Cipher.getInstance('AES/ECB/NoPadding')
        self._e.init(Cipher.ENCRYPT_MODE, self._k)
        self._d = None

    def encrypt(self, data):
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        if not data:
            return ''
        return ''.join([chr(b & 255) for b in self._e.doFinal(_jbytes(data))])

    def decrypt(self, data):
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        if not data:
            return ''
        if self._d is None:
            self._d = Cipher.getInstance('AES/ECB/NoPadding')
            self._d.init(Cipher.DECRYPT_MODE, self._k)
        return ''.join([chr(b & 255) for b in self._d.doFinal(_jbytes(data))])


def new(key, mode=MODE_ECB, *args, **kwargs):
    if mode != MODE_ECB:
        raise ValueError('only ECB is provided')
    return _AES(key)
