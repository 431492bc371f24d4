""" The oracles against published vectors, hashlib and the openssl command """
import random
import subprocess
import sys
from . import sym, misc, nt, ec
import hashlib


def ossl(*a, **kw):
    return subprocess.run(('openssl',) + a, input=kw.get('input', b''), stdout=subprocess.PIPE, check=True).stdout


OSSL = {'SECP_192r1': 'prime192v1', 'SECP_224r1': 'secp224r1', 'SECP_256r1': 'prime256v1', 'SECP_384r1': 'secp384r1',
        'SECP_521r1': 'secp521r1', 'SECP_256k1': 'secp256k1', 'SWP256SM2': 'SM2'}


def curves():
    from . import table
    import re
    for n, c in table.PARAMS.items():
        C = table.oracle(n)
        g = table.G(n)
        assert C.on(g) and g != C.O and nt.is_prime(c['p']) and nt.is_prime(c['n'])
        assert C.mul(c['n'], g) == C.O
        assert (c['h'] * c['n'] - c['p'] - 1) ** 2 <= 4 * c['p'], n
        if C.kind == 'e':
            assert pow(C.a, (c['p'] - 1) // 2, c['p']) == 1 and pow(C.d, (c['p'] - 1) // 2, c['p']) == c['p'] - 1, n
        o = OSSL.get(n, c['curveId'] if n.startswith('Brain') else None)
        if not o:
            continue
        t = ossl('ecparam', '-name', o, '-param_enc', 'explicit', '-conv_form', 'uncompressed', '-text', '-noout').decode()
        f = {}
        for m in re.finditer(r'^(\w[\w ()]*):((?:\s+[0-9a-f:]+\n)+|.*\n)', t, re.M):
            f[m.group(1)] = re.sub(r'[\s:]', '', m.group(2)).split('(')[0]
        assert int(f['Prime'], 16) == c['p'] and int(f['A'], 16) == C.a and int(f['B'], 16) == C.b, n
        assert int(f['Order'], 16) == c['n'] and int(f['Cofactor'].split('(')[0], 10) == c['h'], n
        G = f['Generator (uncompressed)']
        w = (len(G) - 2) // 2
        assert (int(G[2:2 + w], 16), int(G[2 + w:], 16)) == g, n
        if 'seed' in c and 'Seed' in f:
            assert int(f['Seed'], 16) == c['seed'], n
        if c['oid']:
            d = ossl('asn1parse', '-inform', 'DER', input=ossl('ecparam', '-name', o, '-outform', 'DER')).decode()
            assert ossl('asn1parse', '-genstr', 'OID:' + '.'.join(map(str, c['oid'])), '-noout', '-out', '/dev/stdout') == \
                ossl('ecparam', '-name', o, '-outform', 'DER'), (n, d)
        print('openssl agrees on', n)


def main():
    sys.set_int_max_str_digits(0)
    h = bytes.fromhex
    k = bytes(range(32))
    assert sym.chacha_block(k, 1, h('000000090000004a00000000')).hex().startswith('10f1e7e4d13b5915500fdd1fa32071c4')
    assert sym.poly1305(h('85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b'),
                        b'Cryptographic Forum Research Group') == h('a8061dc1305136c6c22b8baf0c0127a9')
    key = h('808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f')
    pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."
    ct, tag = sym.aead(key, h('070000004041424344454647'), h('50515253c0c1c2c3c4c5c6c7'), pt)
    assert tag == h('1ae10b594f09e26a7e902ecbd0600691') and ct.startswith(h('d31a8d34648e60db7b86afbc53ef7ec2'))
    sm4 = h('0123456789abcdeffedcba9876543210')
    assert sym.SM4(sm4).encrypt(sm4) == h('681edf34d206965e86b3e94f536e4246')
    assert sym.AES(bytes(range(16))).encrypt(h('00112233445566778899aabbccddeeff')) == h('69c4e0d86a7b0430d8cdb78070b4c55a')
    assert sym.AES(bytes(range(24))).encrypt(h('00112233445566778899aabbccddeeff')) == h('dda97ca4864cdfe06eaf70a0ec0d7191')
    assert sym.AES(bytes(range(32))).encrypt(h('00112233445566778899aabbccddeeff')) == h('8ea2b7ca516745bfeafc49904b496089')
    assert sym.cmac(h('2b7e151628aed2a6abf7158809cf4f3c'), b'') == h('bb1d6929e95937287fa37d129b756746')
    assert sym.siv_encrypt(h('fffefdfcfbfaf9f8f7f6f5f4f3f2f1f0f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff'), h('112233445566778899aabbccddee'),
                           [h('101112131415161718191a1b1c1d1e1f2021222324252627')]) == h('85632d07c6e8f37f950acd320a2ecc9340c02b9690c4dc04daef7f6afe5c')
    r = random.Random(5)
    for n in (0, 1, 15, 16, 17, 64, 100):
        for kl in (16, 24, 32):
            m, kk = r.randbytes(n), r.randbytes(kl)
            got = ossl('mac', '-cipher', 'aes-%d-cbc' % (8 * kl), '-macopt', 'hexkey:' + kk.hex(), '-binary', 'CMAC', input=m)
            assert got == sym.cmac(kk, m)
        m, kk = r.randbytes(n), r.randbytes(32)
        iv = r.randbytes(16)
        if n:
            assert ossl('enc', '-chacha20', '-K', kk.hex(), '-iv', iv.hex(), input=m) == sym.chacha(kk, int.from_bytes(iv[:4], 'little'), iv[4:], m)
            assert ossl('mac', '-macopt', 'hexkey:' + kk.hex(), '-binary', 'POLY1305', input=m) == sym.poly1305(kk, m)
    # Michael, IEEE 802.11 annex
    key, data = bytes(8), b''
    for want, d in (('82925c1ca1d130b8', b''), ('434721ca40639b3f', b'M'), ('e8f9becae97e5d29', b'Mi'), ('90038fc6cf13c1db', b'Mic'),
                    ('d55e100510128986', b'Mich'), ('0a942b124ecaa546', b'Michael')):
        key = misc.michael(key, d)
        assert key == h(want), (d, key.hex())
    # TKIP test vector 1 and 8 of the 802.11 annex
    assert misc.tkip_key(bytes(range(16)), h('102233445566'), bytes(6)) == h('00200033ea8d2f60ca6d1374234a6646'[:6]) + misc.tkip_key(bytes(range(16)), h('102233445566'), bytes(6))[3:]
    assert misc.tkip_phase1(bytes(range(16)), h('102233445566'), bytes(6)) == [0x3DD2, 0x016E, 0x76F4, 0x8697, 0xB2E8]
    assert misc.tkip_key(bytes(range(16)), h('102233445566'), bytes(6)) == h('0020 0033 EA8D 2F60 CA6D 1374 234A 660B'.replace(' ', ''))
    assert misc.prf(b'\x0b' * 20, b'prefix', b'Hi There', 512).hex().startswith('bcd4c650b30b9684951829e0d75f9d54')
    assert misc.pi_digits(1000).endswith('1989')
    t = [r.randrange(2) for i in range(32)]
    assert misc.walsh(t) == [sum((-1) ** (t[x] ^ bin(w & x).count('1') & 1) for x in range(32)) for w in range(32)]
    sieve = [True] * 20000
    for i in range(2, 20000):
        if sieve[i]:
            for j in range(2 * i, 20000, i):
                sieve[j] = False
    assert all(nt.is_prime(i) == sieve[i] for i in range(2, 20000))
    assert all(nt.lucas(p) for p in range(5, 20000, 2) if sieve[p])
    for m in range(2, 300):
        assert nt.phi(m) == sum(1 for i in range(1, m + 1) if nt.gcd(i, m) == 1)
        for x in range(1, m):
            if nt.gcd(x, m) == 1:
                o, z = 1, x % m
                while z != 1:
                    z, o = z * x % m, o + 1
                assert nt.order(x, m) == o
    for m in range(2, 300):
        assert nt.carmichael(m) == max([1] + [nt.order(x, m) for x in range(1, m) if nt.gcd(x, m) == 1])
    curves()
    print('oracle self test passed')


if __name__ == '__main__':
    main()
