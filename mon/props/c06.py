from ..prog import Prog, M, eq, refused
from ..oracle import sym
from .. import gen

CMAC = 'cryptopy.cipher.aes_cmac:aes_cmac'
SUB = 'cryptopy.cipher.aes_cmac:subkey'
SM4 = M('Crypto.Cipher.SM4:')
BF = M('Crypto.Cipher.Blowfish:')
RULE = ('one history = a series of AES-CMAC computations for keys of 16, 24 and 32 octets: every message length 0..100, around '
        'multiples of 16, long ones; keys are random, extreme, or searched for so that the encrypted zero block or a subkey '
        'starts with a zero octet or needs (not) the 0x87 reduction in each combination; a second 128 bit '
        'block cipher (SM4) passed as the cipher, alternating with AES. Non-trivial: the tag or the subkeys '
        'are compared with the independent AES/CMAC oracle')
ASSUMPTIONS = ['the AES block function comes from the Java runtime (the PyCrypto module the library imports is not installed); '
               'the oracle has its own AES']


def searched(rng):
    """ keys whose derived values have the shapes named in RULE """
    want = {}
    while len(want) < 7:
        key = rng.randbytes(16)
        el = sym.AES(key).encrypt(bytes(16))
        k1 = sym.dbl(el)
        k2 = sym.dbl(k1)
        want.setdefault(('msb', el[0] >> 7, k1[0] >> 7), key)
        for n, v in (('L', el), ('K1', k1), ('K2', k2)):
            if v[0] == 0:
                want.setdefault(n, key)
    return sorted(want.values())


# found by search: the encrypted zero block or a subkey starts with three octets 00 or ff, or ends in three octets 00
RARE = [bytes.fromhex(x) for x in '''
    28da0fe3b87b20681bff38f00a5ef63a
    2b49714e64820f6e59103b9e00555bf6
    11b7a4a16b688ffab2446ed741cfa4ad
    5ea119f6b34bbb93bb7743bbe5d65c28
    597a8323dc0bbc0c33753033a95c688c
    9ccc9cc290b32e668766a4e2e7bb1d0c
'''.split()]


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    special = searched(rng) + RARE
    for key in special:
        p = Prog('keys with extreme subkeys')
        p.call(SUB, key, expect=eq(list(sym.cmac_subkeys(key))))
        for n in (0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 65):
            m = gen.octets(rng, n)
            p.call(CMAC, key, m, expect=eq(sym.cmac(key, m)))
        out.append(p)
    lengths = sorted(set(range(101)) | set(gen.near(16, 400, 1)))
    for rep in range(3 if not big else 60):
        ls = list(lengths)
        rng.shuffle(ls)
        for part in gen.chunks(ls, 20):
            p = Prog('message lengths')
            for n in part:
                key, m = gen.octets(rng, rng.choice((16, 16, 24, 32))), gen.octets(rng, n)
                p.call(CMAC, key, m, expect=eq(sym.cmac(key, m)))
            out.append(p)
    for rep in range(10 if not big else 150):
        p = Prog('subkeys')
        for i in range(25):
            key = gen.octets(rng, rng.choice((16, 16, 24, 32)))
            p.call(SUB, key, expect=eq(list(sym.cmac_subkeys(key))))
        out.append(p)
    for rep in range(6 if not big else 60):
        # messages that differ in their padding only, and messages cut from one another
        p = Prog('padding is unambiguous')
        key, m = gen.octets(rng, 16), gen.octets(rng, rng.randrange(0, 50))
        for t in (b'', b'\x80', b'\x80\0', b'\0', bytes(16), b'\x80' + bytes(15), b'\x80' + bytes(-(len(m) + 1) % 16)):
            p.call(CMAC, key, m + t, expect=eq(sym.cmac(key, m + t)))
        for i in range(len(m)):
            p.call(CMAC, key, m[:i], expect=eq(sym.cmac(key, m[:i])))
        out.append(p)
    for rep in range(12 if not big else 120):
        # the cipher is a parameter: another 128 bit block cipher, alternating with AES under the same key
        p = Prog('another cipher')
        key = gen.octets(rng, 16)
        for i in range(6):
            m = gen.octets(rng, rng.choice((0, 1, 15, 16, 17, 32, 40, rng.randrange(100))))
            p.call(CMAC, key, m, SM4, expect=eq(sym.cmac(key, m, sym.SM4)))
            if rng.random() < .5:
                p.call(CMAC, key, m, expect=eq(sym.cmac(key, m)))
            if rng.random() < .5:
                p.call(SUB, key, k={'CIPH': SM4}, expect=eq(list(sym.cmac_subkeys(key, sym.SM4))))
        out.append(p)
    p = Prog('a cipher of another block size')
    for n in (0, 1, 7, 8, 9, 15, 16, 17, 32, 64):
        p.call(CMAC, gen.octets(rng, 16), gen.octets(rng, n), BF, expect=refused)
    p.call(SUB, gen.octets(rng, 16), BF, expect=refused)
    for n in (0, 1, 15, 17, 31, 33, 64):
        p.call(CMAC, gen.octets(rng, n), b'text', expect=refused)
    out.append(p)
    for rep in range(8 if not big else 80):
        p = Prog('related keys')
        k, m = gen.octets(rng, 32), gen.octets(rng, 1 + (gen.size(rng, 3000) if len(out) % 3 == 0 else rng.randrange(80)))
        keys = [k, k[:16], k[:24], k[16:], k[8:], k[16:] + k[:16], k[:15] + bytes([k[15] ^ 1]), k[:31] + bytes([k[31] ^ 1]), k[::-1], k[:16] + k[:16]]
        keys += [gen.flip(rng, k[:16]), gen.flip(rng, k[:24]), gen.flip(rng, k)]
        ms = [m, m[:-1], m[::-1], m + b'\0', m[:16], b'', gen.flip(rng, m)]
        for i in range(24):
            key, msg = rng.choice(keys), rng.choice(ms)
            p.call(CMAC, key, msg, expect=eq(sym.cmac(key, msg)))
            if i % 4 == 0:
                p.call(SUB, key, expect=eq(list(sym.cmac_subkeys(key))))
        out.append(p)
    for n in (1000, 4096, 4097, 20000, 65536, 70003) + ((140000, 300000) if big else ()):
        p = Prog('long messages', cost=3 + n / 20000.)
        key, m = rng.randbytes(16), rng.randbytes(n)
        p.call(CMAC, key, m, expect=eq(sym.cmac(key, m)))
        out.append(p)
    return [('main', out, {})]
