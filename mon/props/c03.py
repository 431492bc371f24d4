from ..prog import Prog, eq
from ..oracle import sym
from .. import gen

MAC = 'cryptopy.cipher.chacha_poly:poly1305_mac'
KEYGEN = 'cryptopy.cipher.chacha_poly:poly1305_key_gen'
RULE = ('one history = a series of authenticator computations: every length 0..130 and around multiples of 16, keys with '
        'every unclamped bit set, and messages solved for so that the accumulator takes chosen values (0..6, around p, '
        'around 2^128 and 2^129) after the last block or in the middle and so that adding s carries out of 128 bits; also '
        'one-time key derivation. Non-trivial: the tag is compared with the independent oracle')


def craft(rng, target, prefix_blocks, partial):
    """ key and message whose accumulator is `target` after the last block """
    p = sym.P1305
    if target == 0:        # needs a block before: one block alone is not 0
        prefix_blocks += 1
    while True:
        key = rng.choice((rng.randbytes(16), b'\xff' * 16, rng.randbytes(16))) + rng.choice((rng.randbytes(16), b'\xff' * 16, bytes(16)))
        r = int.from_bytes(key[:16], 'little') & sym.R_MASK
        if r == 0:
            continue
        for _ in range(40):
            pre = b''.join(gen.octets(rng, 16) for _ in range(prefix_blocks))
            acc = sym.poly1305_acc(key, pre)
            n = (target * pow(r, -1, p) - acc) % p
            if (1 << 128) <= n < (1 << 129):
                return key, pre + (n - (1 << 128)).to_bytes(16, 'little')


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    lengths = sorted(set(range(131)) | set(gen.near(16, 600, 1)))
    for rep in range(3 if not big else 60):
        ls = list(lengths)
        rng.shuffle(ls)
        for part in gen.chunks(ls, 25):
            p = Prog('message lengths')
            for n in part:
                key, m = gen.octets(rng, 16) + gen.octets(rng, 16), gen.octets(rng, n)
                p.call(MAC, m, key, expect=eq(sym.poly1305(key, m)))
            out.append(p)
    for rep in range(10 if not big else 100):
        p = Prog('related keys')
        k, m = gen.octets(rng, 32), gen.octets(rng, 1 + (gen.size(rng, 6000) if len(out) % 2 else rng.randrange(120)))
        r, s = k[:16], k[16:]
        keys = [k, s + r, r + gen.octets(rng, 16), gen.octets(rng, 16) + s, r + r, s + s, r[:15] + bytes([r[15] ^ 1]) + s, bytes([r[0] ^ 1]) + r[1:] + s,
                r[:3] + bytes([r[3] ^ 0x10]) + r[4:] + s, bytes(16) + s, r + bytes(16)]
        keys.append(gen.flip(rng, k))
        ms = [m, m[:-1] + bytes([m[-1] ^ 1]), m[:-1], m + b'\0', m[::-1], gen.flip(rng, m)]
        for i in range(30):
            key, msg = rng.choice(keys), rng.choice(ms)
            p.call(MAC, msg, key, expect=eq(sym.poly1305(key, msg)))
        out.append(p)
    for n in (600, 1000, 2047, 4096, 8200, 10001, 20000, 32767, 40001, 65536, 65537, 70000, 131072 + 5, 200016) + (
            tuple(rng.randrange(200, 300000) for _ in range(40)) + (1 << 20, (1 << 20) + 1) if big else (rng.randrange(200, 100000),)):
        p = Prog('long messages', cost=1 + n / 20000.)
        key, m = rng.randbytes(32), rng.randbytes(n)
        p.call(MAC, m, key, expect=eq(sym.poly1305(key, m)))
        out.append(p)
    P = sym.P1305
    targets = list(range(0, 7)) + [P - i for i in range(1, 7)] + [2 ** 128 + i for i in range(-6, 7)] + \
        [2 ** 129 + i for i in range(-3, 4)] + [3 * 2 ** 128 + i for i in range(-3, 4)] + [2 ** 130 - 6, 2 ** 64, 2 ** 127]
    for rep in range(3 if not big else 40):
        for part in gen.chunks(targets, 10):
            p = Prog('chosen accumulators')
            for t in part:
                key, m = craft(rng, t, rng.randrange(0, 4), 0)
                assert sym.poly1305_acc(key, m) == t
                p.call(MAC, m, key, expect=eq(sym.poly1305(key, m)))
                # the same value in the middle of a longer message
                m2 = m + gen.octets(rng, rng.randrange(1, 40))
                p.call(MAC, m2, key, expect=eq(sym.poly1305(key, m2)))
                # s such that the final addition carries, or just does not
                a = t % (1 << 128)
                for s in ((1 << 128) - a, (1 << 128) - a - 1):
                    k2 = key[:16] + (s % (1 << 128)).to_bytes(16, 'little')
                    p.call(MAC, m, k2, expect=eq(sym.poly1305(k2, m)))
            out.append(p)
    p = Prog('single bits of r')
    for b in range(128):
        k = (1 << b).to_bytes(16, 'little') + bytes(16)
        m = b'\xff' * 16 + bytes(16)
        p.call(MAC, m, k, expect=eq(sym.poly1305(k, m)))
    out.append(p)
    p = Prog('single bits of s')
    for b in range(128):
        k = b'\xff' * 16 + (1 << b).to_bytes(16, 'little')
        m = b'q' * 17
        p.call(MAC, m, k, expect=eq(sym.poly1305(k, m)))
    out.append(p)
    # lengths are not ambiguous: trailing zeros and missing octets change the tag
    for rep in range(4 if not big else 60):
        p = Prog('padding is unambiguous')
        key, m = rng.randbytes(32), gen.octets(rng, rng.randrange(0, 40))
        for z in range(0, 20):
            p.call(MAC, m + bytes(z), key, expect=eq(sym.poly1305(key, m + bytes(z))))
            p.call(MAC, m + b'\x01' + bytes(z), key, expect=eq(sym.poly1305(key, m + b'\x01' + bytes(z))))
        out.append(p)
    for rep in range(5 if not big else 60):
        p = Prog('one-time keys')
        for i in range(8):
            key, nonce = gen.octets(rng, 32), gen.octets(rng, 12)
            p.call(KEYGEN, key, nonce, expect=eq(sym.chacha_block(key, 0, nonce)[:32]))
        out.append(p)
    return [('main', out, {})]
