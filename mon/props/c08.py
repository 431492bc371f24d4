from ..prog import Prog, V, eq, refused
from .. import gen

INTMODS = ('cryptopy.cipher.encoding:', 'cryptopy.cipher.common:', 'cryptopy.ecc.ecc:')
ENC = 'cryptopy.cipher.encoding:'
RULE = ('one history = a series of conversions between integers, octet strings and text in bases 27, 85 and 94, each followed by '
        'the way back, with and without padding to a length; integers around powers of 2^8, 2^31, 2^32, 2^63, 2^64 and of the '
        'base, octet strings with leading and trailing zeros, up to 300 octets; too small paddings, negative numbers and foreign '
        'characters must be refused; and octet string xor for all three implementations. Non-trivial: compared with the '
        'positional definition')

B27 = b'ABCDEFGHJKMNPQRTWXYZ2346789'
B85 = b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~'
B94 = bytes(range(33, 127))
BASES = (('b27', B27), ('b85', B85), ('b94', B94))


def i2s(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')


def text(n, alphabet):
    out = b''
    while n:
        n, r = divmod(n, len(alphabet))
        out = alphabet[r:r + 1] + out
    return out


def number(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.randrange(300)
    if k == 1:
        return max(0, 256 ** rng.randrange(1, 40) + rng.randrange(-2, 3))
    if k == 2:
        return max(0, 2 ** rng.choice((15, 16, 31, 32, 53, 62, 63, 64, 127, 128, 521)) + rng.randrange(-2, 3))
    if k == 3:
        return 256 ** rng.randrange(1, 60)
    if k == 4:
        return rng.choice((27, 85, 94)) ** rng.randrange(1, 60) + rng.randrange(-1, 2)
    return rng.getrandbits(rng.randrange(1, 800))


def plan(rng, tier):
    big = tier == 'thorough'
    f = 10 if big else 1
    out = []
    for mod in INTMODS:
        for rep in range(8 * f):
            p = Prog('integers and octet strings')
            for i in range(40):
                n = number(rng) if rep or i > 20 else i
                s = i2s(n)
                p.call(mod + 'int_to_string', n, expect=eq(s))
                pad = len(s) + rng.choice((0, 0, 1, 2, rng.randrange(0, 40)))
                want = bytes(pad - len(s)) + s
                if rng.randrange(2):
                    p.call(mod + 'int_to_string', n, pad, expect=eq(want), d='s')
                else:
                    p.call(mod + 'int_to_string', n, k={'padto': pad}, expect=eq(want), d='s')
                p.call(mod + 'string_to_int', V('s'), expect=eq(n))
                if n:
                    p.call(mod + 'int_to_string', n, 0, expect=refused)
                if len(s) > 1:
                    p.call(mod + 'int_to_string', n, rng.choice((len(s) - 1, 1, rng.randrange(1, len(s)))), expect=refused)
                b = gen.octets(rng, rng.randrange(0, 90))
                p.call(mod + 'string_to_int', b, expect=eq(int.from_bytes(b, 'big')))
                p.call(mod + 'int_to_string', int.from_bytes(b, 'big'), len(b), expect=eq(b))
            for n in (-1, -255, -256, -2 ** 31, -2 ** 64, -number(rng) - 1):
                p.call(mod + 'int_to_string', n, expect=refused)
                p.call(mod + 'int_to_string', n, 20, expect=refused)
            out.append(p)
    for name, alpha in BASES:
        for rep in range(8 * f):
            p = Prog('text in ' + name)
            for i in range(30):
                b = gen.octets(rng, rng.choice((rng.randrange(0, 34), rng.randrange(0, 20), rng.randrange(30, 120))))
                if rng.randrange(3) == 0:
                    b = i2s(number(rng))
                n = int.from_bytes(b, 'big')
                t = text(n, alpha)
                p.call(ENC + name + 'encode', b, expect=eq(t), d='t')
                p.call(ENC + name + 'decode', V('t'), expect=eq(i2s(n)))
                pad = len(b) + rng.choice((0, 0, 0, 1, 5))
                want = bytes(pad - len(b)) + b
                if rng.randrange(2):
                    p.call(ENC + name + 'decode', V('t'), pad, expect=eq(want))
                else:
                    p.call(ENC + name + 'decode', V('t'), k={'padto': pad}, expect=eq(want))
                if n:
                    p.call(ENC + name + 'decode', V('t'), 0, expect=refused)
                if n > 255:
                    p.call(ENC + name + 'decode', V('t'), len(i2s(n)) - 1, expect=refused)
                # any text over the alphabet is some number
                t = bytes(rng.choice(alpha) for _ in range(rng.randrange(1, 30)))
                v = 0
                for c in t:
                    v = v * len(alpha) + alpha.index(c)
                p.call(ENC + name + 'decode', t, expect=eq(i2s(v)))
                # and one foreign character makes it none
                bad = rng.choice([c for c in range(256) if c not in alpha])
                at = rng.randrange(len(t) + 1)
                p.call(ENC + name + 'decode', t[:at] + bytes([bad]) + t[at:], expect=refused)
            out.append(p)
        p = Prog('zeros in ' + name)
        for n in range(0, 20):
            p.call(ENC + name + 'encode', bytes(n), d='t', expect=eq(b''))
            p.call(ENC + name + 'decode', V('t'), n, expect=eq(bytes(n)))
            p.call(ENC + name + 'decode', alpha[:1] * n, n, expect=eq(bytes(n)))
        out.append(p)
        # every digit value, every foreign character
        p = Prog('alphabet of ' + name)
        for i in range(1, len(alpha)):
            p.call(ENC + name + 'encode', bytes([i]), expect=eq(alpha[i:i + 1]))
            p.call(ENC + name + 'decode', alpha[i:i + 1], expect=eq(bytes([i])))
        for c in range(256):
            if c not in alpha:
                p.call(ENC + name + 'decode', b'%c' % c, expect=refused)
                p.call(ENC + name + 'decode', alpha[3:5] + b'%c' % c, expect=refused)
        out.append(p)
    # alphabets of the caller's own, used by turns: the same characters in another order, a prefix, another size
    for rep in range(5 * f):
        p = Prog('text in any base')
        size = rng.choice((2, 3, 10, 16, 26, 27, 32, 58, 64, 85, 94, 128, 200, 255, 256))
        a = bytes(rng.sample(range(256), size))
        alphas = [a, bytes(rng.sample(a, size)), a[::-1]]
        if size > 2:
            alphas += [a[:-1], a[1:]]
        if size < 256:
            alphas.append(bytes(rng.sample(range(256), size)))
        for i in range(8):
            b = gen.octets(rng, rng.choice((0, 1, 2, 6, 16, 20, 33)))
            n = int.from_bytes(b, 'big')
            for al in alphas:
                t = text(n, al)
                p.call(ENC + 'base_N_encode', b, al, expect=eq(t))
                p.call(ENC + 'base_N_decode', t, al, len(b), expect=eq(b))
                p.call(ENC + 'base_N_decode', t, al, expect=eq(i2s(n)))
                if len(al) < 256:
                    at = rng.randrange(len(t) + 1)
                    bad = rng.choice([c for c in range(256) if c not in al])
                    p.call(ENC + 'base_N_decode', t[:at] + bytes([bad]) + t[at:], al, expect=refused)
        out.append(p)
    for mod in INTMODS:
        p = Prog('long integers and octet strings', cost=3)
        for n in (255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4097, rng.randrange(2000, 6000)):
            b = gen.octets(rng, n)
            p.call(mod + 'string_to_int', b, expect=eq(int.from_bytes(b, 'big')))
            v = int.from_bytes(b, 'big') | 1 << (8 * n - rng.randrange(1, 9))
            p.call(mod + 'int_to_string', v, expect=eq(i2s(v)))
            p.call(mod + 'int_to_string', v, n + 3, expect=eq(bytes(3) + i2s(v)))
            p.call(mod + 'int_to_string', v, n - 1, expect=refused)
        out.append(p)
    for name, alpha in BASES:
        p = Prog('long text in ' + name, cost=3)
        for n in (127, 128, 129, 255, 256, 257, rng.randrange(300, 900)):
            b = gen.octets(rng, n)
            t = text(int.from_bytes(b, 'big'), alpha)
            p.call(ENC + name + 'encode', b, expect=eq(t))
            p.call(ENC + name + 'decode', t, n, expect=eq(b))
        out.append(p)
    p = Prog('long xor')
    for n in (127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, rng.randrange(5000, 20000), 65535, 65536, 65537, rng.randrange(70000, 140000)):
        a, b = gen.octets(rng, n), rng.randbytes(n)
        want = bytes(x ^ y for x, y in zip(a, b))
        for fn in ('cryptopy.cipher.common:xor', 'cryptopy.cipher.aes_cmac:xor', 'cryptopy.cipher.common:xor_min'):
            p.call(fn, a, b, expect=eq(want))
        for fn in ('cryptopy.cipher.common:xor', 'cryptopy.cipher.aes_cmac:xor'):
            p.call(fn, a, b[:-1], expect=refused)
            p.call(fn, a[:-1], b, expect=refused)
        p.call('cryptopy.cipher.common:xor_min', a, b[:-1], expect=eq(want[:-1]))
    out.append(p)
    for rep in range(6 * f):
        p = Prog('xor')
        for i in range(25):
            n = rng.randrange(0, 70)
            a, b = gen.octets(rng, n), gen.octets(rng, n)
            want = bytes(x ^ y for x, y in zip(a, b))
            for fn in ('cryptopy.cipher.common:xor', 'cryptopy.cipher.aes_cmac:xor', 'cryptopy.cipher.common:xor_min'):
                p.call(fn, a, b, expect=eq(want))
            c = gen.octets(rng, n + rng.randrange(1, 9))
            for fn in ('cryptopy.cipher.common:xor', 'cryptopy.cipher.aes_cmac:xor'):
                p.call(fn, a, c, expect=refused)
                p.call(fn, c, a, expect=refused)
            p.call('cryptopy.cipher.common:xor_min', a, c, expect=eq(bytes(x ^ y for x, y in zip(a, c))))
            p.call('cryptopy.cipher.common:xor_min', c, a, expect=eq(bytes(x ^ y for x, y in zip(a, c))))
        out.append(p)
    return [('main', out, {})]
