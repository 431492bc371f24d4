""" Independent symmetric oracles: ChaCha20, Poly1305 (RFC 8439), AES (FIPS 197),
CMAC (RFC 4493), SIV (RFC 5297). Checked against the RFC vectors in selftest.py """
import struct


def rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def chacha_block(key, counter, nonce):
    st = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    st += [int.from_bytes(key[4 * i:4 * i + 4], 'little') for i in range(8)]
    st += [counter] + [int.from_bytes(nonce[4 * i:4 * i + 4], 'little') for i in range(3)]
    x = list(st)
    for _ in range(10):
        for a, b, c, d in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                           (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            x[a] = (x[a] + x[b]) & 0xffffffff; x[d] = rotl(x[d] ^ x[a], 16)
            x[c] = (x[c] + x[d]) & 0xffffffff; x[b] = rotl(x[b] ^ x[c], 12)
            x[a] = (x[a] + x[b]) & 0xffffffff; x[d] = rotl(x[d] ^ x[a], 8)
            x[c] = (x[c] + x[d]) & 0xffffffff; x[b] = rotl(x[b] ^ x[c], 7)
    return b''.join(((a + b) & 0xffffffff).to_bytes(4, 'little') for a, b in zip(x, st))


def quarter(a, b, c, d):
    a = (a + b) & 0xffffffff; d = rotl(d ^ a, 16)
    c = (c + d) & 0xffffffff; b = rotl(b ^ c, 12)
    a = (a + b) & 0xffffffff; d = rotl(d ^ a, 8)
    c = (c + d) & 0xffffffff; b = rotl(b ^ c, 7)
    return a, b, c, d


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def keystream(key, counter, nonce, n):
    out = b''
    while len(out) < n:
        out += chacha_block(key, counter, nonce)
        counter += 1
    return out[:n]


def chacha(key, counter, nonce, data):
    return xor(data, keystream(key, counter, nonce, len(data)))


R_MASK = 0x0ffffffc0ffffffc0ffffffc0fffffff
P1305 = (1 << 130) - 5


def poly1305_acc(key, msg):
    """ accumulator before s is added """
    r = int.from_bytes(key[:16], 'little') & R_MASK
    n = (len(msg) + 15) // 16
    powers, acc = 1, 0
    # Horner from the other end: sum of block_i * r^(n-i)
    for i in reversed(range(n)):
        powers = powers * r % P1305
        acc += (int.from_bytes(msg[16 * i:16 * i + 16], 'little') + (1 << (8 * len(msg[16 * i:16 * i + 16])))) * powers
    return acc % P1305


def poly1305(key, msg):
    return ((poly1305_acc(key, msg) + int.from_bytes(key[16:32], 'little')) % (1 << 128)).to_bytes(16, 'little')


def pad16(x):
    return b'\0' * (-len(x) % 16)


def aead_tag(key, nonce, aad, ct):
    otk = chacha_block(key, 0, nonce)[:32]
    return poly1305(otk, aad + pad16(aad) + ct + pad16(ct) + struct.pack('<QQ', len(aad), len(ct)))


def aead(key, nonce, aad, pt):
    ct = chacha(key, 1, nonce, pt)
    return ct, aead_tag(key, nonce, aad, ct)


def aead_craft(key, nonce, aad, pre, target):
    """ cipher text (pre and one block more; pre is whole blocks) whose tag is the target, or None for this pre """
    otk = chacha_block(key, 0, nonce)[:32]
    r, s = int.from_bytes(otk[:16], 'little') & R_MASK, int.from_bytes(otk[16:], 'little')
    acc = poly1305_acc(otk, aad + pad16(aad) + pre)
    lens = int.from_bytes(struct.pack('<QQ', len(aad), len(pre) + 16), 'little') + (1 << 128)
    inv = pow(r, -1, P1305)
    for j in range(4):
        t = (int.from_bytes(target, 'little') - s) % (1 << 128) + (j << 128)
        n = ((t * inv - lens) * inv - acc) % P1305
        if t < P1305 and 1 << 128 <= n < 1 << 129:
            return pre + (n - (1 << 128)).to_bytes(16, 'little')


# ---------------------------------------------------------------------- AES
def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x11b
        b >>= 1
    return r


def _sbox():
    out = []
    for x in range(256):
        i = 0 if x == 0 else next(y for y in range(1, 256) if _gmul(x, y) == 1)
        s = 0
        for k in range(5):
            s ^= (i << k | i >> (8 - k)) & 255
        out.append(s ^ 0x63)
    return out


SBOX = _sbox()
M2 = [_gmul(x, 2) for x in range(256)]
M3 = [_gmul(x, 3) for x in range(256)]


class AES(object):
    def __init__(self, key):
        nk = len(key) // 4
        self.nr = nk + 6
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        rcon = 1
        for i in range(nk, 4 * (self.nr + 1)):
            t = list(w[-1])
            if i % nk == 0:
                t = [SBOX[x] for x in t[1:] + t[:1]]
                t[0] ^= rcon
                rcon = M2[rcon]
            elif nk > 6 and i % nk == 4:
                t = [SBOX[x] for x in t]
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        self.rk = [sum(w[4 * r:4 * r + 4], []) for r in range(self.nr + 1)]

    def encrypt(self, block):
        s = [a ^ b for a, b in zip(block, self.rk[0])]
        for r in range(1, self.nr + 1):
            s = [SBOX[x] for x in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < self.nr:
                t = []
                for c in range(4):
                    a, b, d, e = s[4 * c:4 * c + 4]
                    t += [M2[a] ^ M3[b] ^ d ^ e, a ^ M2[b] ^ M3[d] ^ e, a ^ b ^ M2[d] ^ M3[e], M3[a] ^ b ^ d ^ M2[e]]
                s = t
            s = [a ^ b for a, b in zip(s, self.rk[r])]
        return bytes(s)


    def decrypt(self, block):
        s = [a ^ b for a, b in zip(block, self.rk[self.nr])]
        for r in range(self.nr - 1, -1, -1):
            s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
            s = [INV[x] for x in s]
            s = [a ^ b for a, b in zip(s, self.rk[r])]
            if r:
                t = []
                for c in range(4):
                    a, b, d, e = s[4 * c:4 * c + 4]
                    t += [G[14][a] ^ G[11][b] ^ G[13][d] ^ G[9][e], G[9][a] ^ G[14][b] ^ G[11][d] ^ G[13][e],
                          G[13][a] ^ G[9][b] ^ G[14][d] ^ G[11][e], G[11][a] ^ G[13][b] ^ G[9][d] ^ G[14][e]]
                s = t
        return bytes(s)


INV = [SBOX.index(x) for x in range(256)]
G = {k: [_gmul(x, k) for x in range(256)] for k in (9, 11, 13, 14)}


def dbl(b):
    n = int.from_bytes(b, 'big') << 1
    if n >> 128:
        n = (n ^ 0x87) & ((1 << 128) - 1)
    return n.to_bytes(16, 'big')


class SM4(object):
    """ GB/T 32907, a second 128 bit block cipher """
    BOX = bytes.fromhex(
        'd690e9fecce13db716b614c228fb2c052b679a762abe04c3aa441326498606999c4250f491ef987a33540b43edcfac62'
        'e4b31ca9c908e89580df94fa758f3fa64707a7fcf37317ba83593c19e6854fa8686b81b27164da8bf8eb0f4b70569d35'
        '1e240e5e6358d1a225227c3b01217887d40046579fd327524c3602e7a0c4c89eeabf8ad240c738b5a3f7f2cef96115a1'
        'e0ae5da49b341a55ad933230f58cb1e31df6e22e8266ca60c02923ab0d534e6fd5db3745defd8e2f03ff6a726d6c5b51'
        '8d1baf92bbddbc7f11d95c411f105ad80ac13188a5cd7bbd2d74d012b8e5b4b08969974a0c96777e65b9f109c56ec684'
        '18f07dec3adc4d2079ee5f3ed7cb3948')

    def __init__(self, key):
        k = [a ^ b for a, b in zip(self.words(key), (0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc))]
        self.rk = []
        for i in range(32):
            t = self.tau(k[1] ^ k[2] ^ k[3] ^ sum((4 * i + j) * 7 % 256 << (24 - 8 * j) for j in range(4)))
            k = k[1:] + [k[0] ^ t ^ rotl(t, 13) ^ rotl(t, 23)]
            self.rk.append(k[-1])

    @staticmethod
    def words(b):
        return [int.from_bytes(b[i:i + 4], 'big') for i in range(0, 16, 4)]

    @classmethod
    def tau(cls, w):
        return int.from_bytes(bytes(cls.BOX[b] for b in w.to_bytes(4, 'big')), 'big')

    def encrypt(self, block):
        x = self.words(block)
        for rk in self.rk:
            t = self.tau(x[1] ^ x[2] ^ x[3] ^ rk)
            x = x[1:] + [x[0] ^ t ^ rotl(t, 2) ^ rotl(t, 10) ^ rotl(t, 18) ^ rotl(t, 24)]
        return b''.join(w.to_bytes(4, 'big') for w in reversed(x))


def cmac_subkeys(key, ciph=AES):
    l = ciph(key).encrypt(bytes(16))
    return dbl(l), dbl(dbl(l))


def cmac(key, msg, ciph=AES):
    aes = ciph(key)
    k1, k2 = cmac_subkeys(key, ciph)
    n = max(1, (len(msg) + 15) // 16)
    last = msg[16 * (n - 1):]
    last = xor(last, k1) if len(last) == 16 else xor(last + b'\x80' + bytes(15 - len(last)), k2)
    x = bytes(16)
    for i in range(n - 1):
        x = aes.encrypt(xor(x, msg[16 * i:16 * i + 16]))
    return aes.encrypt(xor(x, last))


def s2v(key, strings):
    if not strings:
        return cmac(key, bytes(15) + b'\x01')
    d = cmac(key, bytes(16))
    for s in strings[:-1]:
        d = xor(dbl(d), cmac(key, s))
    s = strings[-1]
    if len(s) >= 16:
        t = s[:-16] + xor(s[-16:], d)
    else:
        t = xor(dbl(d), s + b'\x80' + bytes(15 - len(s)))
    return cmac(key, t)


def siv_ctr(key2, iv, data):
    q = int.from_bytes(iv, 'big') & ~(1 << 63) & ~(1 << 31)
    aes = AES(key2)
    ks = b''
    for i in range((len(data) + 15) // 16):
        ks += aes.encrypt(((q + i) % (1 << 128)).to_bytes(16, 'big'))
    return xor(data, ks)


def siv_encrypt(key, pt, ads):
    h = len(key) // 2
    iv = s2v(key[:h], list(ads) + [pt])
    return iv + siv_ctr(key[h:], iv, pt)


def siv_decrypt(key, blob, ads):
    """ the plaintext, or None """
    if len(blob) < 16:
        return None
    h = len(key) // 2
    pt = siv_ctr(key[h:], blob[:16], blob[16:])
    return pt if s2v(key[:h], list(ads) + [pt]) == blob[:16] else None


def siv_craft(key, ads, pre, iv):
    """ a plaintext of whole blocks, starting with `pre`, whose synthetic IV is iv """
    h = len(key) // 2
    k = key[:h]
    aes = AES(k)
    k1, _ = cmac_subkeys(k)
    d = cmac(k, bytes(16))
    for a in ads:
        d = xor(dbl(d), cmac(k, a))
    assert len(pre) % 16 == 0
    x = bytes(16)
    for i in range(len(pre) // 16):
        x = aes.encrypt(xor(x, pre[16 * i:16 * i + 16]))
    last = xor(xor(aes.decrypt(iv), x), k1)
    pt = pre + xor(last, d)
    assert s2v(k, list(ads) + [pt]) == iv
    return pt
