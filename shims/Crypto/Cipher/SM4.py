""" A second block cipher with 128 bit blocks and the interface of the PyCrypto
    modules, GB/T 32907 (SM4), for code that takes the cipher as a parameter. """
from struct import pack, unpack

MODE_ECB = 1
block_size = 16
key_size = 16

BOX = ('d690e9fecce13db716b614c228fb2c052b679a762abe04c3aa44132649860699'
       '9c4250f491ef987a33540b43edcfac62e4b31ca9c908e89580df94fa758f3fa6'
       '4707a7fcf37317ba83593c19e6854fa8686b81b27164da8bf8eb0f4b70569d35'
       '1e240e5e6358d1a225227c3b01217887d40046579fd327524c3602e7a0c4c89e'
       'eabf8ad240c738b5a3f7f2cef96115a1e0ae5da49b341a55ad933230f58cb1e3'
       '1df6e22e8266ca60c02923ab0d534e6fd5db3745defd8e2f03ff6a726d6c5b51'
       '8d1baf92bbddbc7f11d95c411f105ad80ac13188a5cd7bbd2d74d012b8e5b4b0'
       '8969974a0c96777e65b9f109c56ec68418f07dec3adc4d2079ee5f3ed7cb3948').decode('hex')


def _rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffffL


def _tau(w):
    return unpack('>I', ''.join([BOX[ord(c)] for c in pack('>I', w)]))[0]


class _SM4(object):
    block_size = 16

    def __init__(self, key):
        if len(key) != 16:
            raise ValueError('SM4 key must be 16 bytes long')
        k = [a ^ b for a, b in zip(unpack('>4I', key), (0xa3b1bac6L, 0x56aa3350L, 0x677d9197L, 0xb27022dcL))]
        self._rk = []
        for i in range(32):
            ck = 0L
            for j in range(4):
                ck = ck << 8 | (4*i + j) * 7 % 256
            t = _tau(k[1] ^ k[2] ^ k[3] ^ ck)
            k = k[1:] + [k[0] ^ t ^ _rotl(t, 13) ^ _rotl(t, 23)]
            self._rk.append(k[-1])

    def encrypt(self, data):
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        out = ''
        for n in range(0, len(data), 16):
            x = list(unpack('>4I', data[n:n+16]))
            for rk in self._rk:
                t = _tau(x[1] ^ x[2] ^ x[3] ^ rk)
                x = x[1:] + [x[0] ^ t ^ _rotl(t, 2) ^ _rotl(t, 10) ^ _rotl(t, 18) ^ _rotl(t, 24)]
            out += pack('>4I', *reversed(x))
        return out


def new(key, mode=MODE_ECB, *args, **kwargs):
    if mode != MODE_ECB:
        raise ValueError('only ECB is provided')
    return _SM4(key)
