from ..prog import Prog, V, eq, never
from ..oracle import sym
from .. import gen

A = 'cryptopy.cipher.chacha_poly:ChaCha20_AEAD'
B = 'cryptopy.cipher.chacha_poly:ChaCha_Poly_AEAD'
RULE = ('one history = one AEAD object sealing a sequence of messages: associated data and plaintext of every length 0..40, '
        'around multiples of 16 and 64, and long (to 2^24 octets); all ways to split the 12 octet nonce between the fixed part and the '
        'per-message part; wrong nonce sizes must not yield output. Non-trivial: ciphertext and tag are compared with the '
        'independent RFC 8439 oracle')


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    pairs = [(a, m) for a in range(0, 35) for m in (0, 1, 15, 16, 17, 63, 64, 65)] + \
            [(a, m) for a in (0, 1, 12, 15, 16, 17, 32) for m in range(0, 70)] + \
            [(rng.randrange(300), rng.randrange(300)) for _ in range(100 if not big else 2500)] + \
            [(255, 1), (256, 1), (257, 255), (1, 256), (0, 257), (16, 512), (511, 65), (512, 64)]
    rng.shuffle(pairs)
    for part in gen.chunks(pairs, 12):
        p = Prog('associated data and message lengths')
        key = gen.octets(rng, 32)
        split = rng.choice((0, 1, 4, 4, 4, 8, 11, 12, rng.randrange(13)))
        const = gen.octets(rng, split)
        p.new('a', A, key, const)
        p.new('b', B, key, const)
        for a, m in part:
            aad, pt, iv = gen.octets(rng, a), gen.octets(rng, m), gen.octets(rng, 12 - split)
            ct, tag = sym.aead(key, const + iv, aad, pt)
            if rng.randrange(2):
                p.on('a', 'encrypt', aad, iv, pt, expect=eq((ct, tag)))
            else:
                p.on('b', 'encrypt', aad, iv, pt, expect=eq(iv + ct + tag))
        out.append(p)
    for a, m in ((70000, 10), (10, 70000), (65536, 65536), (2000, 3000), (5, 1 << 20)) if big else ((66000, 5), (3, 66000)):
        p = Prog('long inputs', cost=5)
        key, nonce, aad, pt = rng.randbytes(32), rng.randbytes(12), rng.randbytes(a), rng.randbytes(m)
        p.new('a', A, key, nonce[:4])
        p.on('a', 'encrypt', aad, nonce[4:], pt, expect=eq(sym.aead(key, nonce, aad, pt)))
        out.append(p)
    for n in ((1 << 24) + 17,) + ((1 << 25, (1 << 24) - 1, 1 << 24) if big else ()):
        # lengths that need four octets of the length field; built inside the executor
        p = Prog('millions of octets', cost=60)
        key, nonce = rng.randbytes(32), rng.randbytes(12)
        unit = rng.randbytes(1)
        p.op('mul', unit, n, d='aad', q=1)
        p.new('a', A, key, nonce[:4])
        p.on('a', 'encrypt', V('aad'), nonce[4:], b'text', expect=eq(sym.aead(key, nonce, unit * n, b'text')))
        out.append(p)
    for rep in range(10 if not big else 80):
        p = Prog('objects do not share keys')
        objs = []
        for i in range(4):
            objs.append((gen.octets(rng, 32), gen.octets(rng, 4)))
            p.new('o%d' % i, rng.choice((A,)), *objs[-1])
        for j in range(8):
            i = rng.randrange(4)
            aad, pt, iv = gen.octets(rng, rng.randrange(20)), gen.octets(rng, rng.randrange(80)), gen.octets(rng, 8)
            p.on('o%d' % i, 'encrypt', aad, iv, pt, expect=eq(sym.aead(objs[i][0], objs[i][1] + iv, aad, pt)))
        out.append(p)
    for rep in range(8 if not big else 80):
        # keys, fixed parts, nonces and data drawn from a few related values
        p = Prog('related parameters')
        split = 4 if rep % 2 == 0 else rng.choice((0, 1, 2, 3, 6, 8, 10, 11, 12))
        k, c, v = gen.octets(rng, 32), gen.octets(rng, split), gen.octets(rng, 12 - split)
        keys = [k, k[:31] + bytes([k[31] ^ 1]), k[16:] + k[:16]]
        consts, ivs = [c, c[::-1]], [v, v[::-1]]
        for l in (consts, ivs):
            if l[0]:
                l += [l[0][:-1] + bytes([l[0][-1] ^ 1]), bytes([l[0][0] ^ 1]) + l[0][1:]]
        consts.append((v + c)[:split])
        ivs.append((c + v)[:12 - split])
        keys.append(gen.flip(rng, k))
        consts.append(gen.flip(rng, c))
        ivs.append(gen.flip(rng, v))
        m = gen.octets(rng, 2 + (gen.size(rng, 2500) if len(out) % 3 == 0 else rng.randrange(100)))
        texts = [gen.flip(rng, m), m, m[:-1], m[::-1], b'', bytes(len(m)), m[:-1] + bytes([m[-1] ^ 1])]
        for i in range(14):
            key, const = rng.choice(keys), rng.choice(consts)
            p.new('o', rng.choice((A, B)), key, const)
            comb = p.steps[-1]['f'] == B
            for _ in range(rng.randrange(1, 3)):
                iv, aad, pt = rng.choice(ivs), rng.choice(texts), rng.choice(texts)
                ct, tag = sym.aead(key, const + iv, aad, pt)
                p.on('o', 'encrypt', aad, iv, pt, expect=eq(iv + ct + tag if comb else (ct, tag)))
        out.append(p)
    for rep in range(10 if not big else 80):
        # one object, nonces that differ in one octet, by turns and with different data
        p = Prog('nonces nearly alike')
        split = rep if rep < 12 else rng.randrange(12)
        key, const, iv = gen.octets(rng, 32), gen.octets(rng, split), gen.octets(rng, 12 - split)
        ivs = [iv] + [iv[:i] + bytes([iv[i] ^ 1 << rng.randrange(8)]) + iv[i + 1:] for i in range(len(iv))]
        todo = [iv] * 3 + ivs + [iv] + ivs[::-1]
        cls = rng.choice((A, B))
        p.new('o', cls, key, const)
        aad, pt = gen.octets(rng, rng.randrange(20)), gen.octets(rng, rng.randrange(90))
        for v in todo:
            if rng.randrange(3) == 0:
                aad = gen.octets(rng, rng.randrange(20))
            if rng.randrange(3) == 0:
                pt = gen.octets(rng, rng.randrange(90))
            ct, tag = sym.aead(key, const + v, aad, pt)
            p.on('o', 'encrypt', aad, v, pt, expect=eq(v + ct + tag if cls == B else (ct, tag)))
        out.append(p)
    p = Prog('wrong sizes')
    n = 0
    for cls in (A, B):
        for c, i in ((4, 7), (4, 9), (0, 0), (0, 8), (4, 0), (12, 1), (4, 12), (0, 16), (13, 0)):
            n += 1
            p.new('w%d' % n, cls, rng.randbytes(32), rng.randbytes(c), expect=None)
            p.on('w%d' % n, 'encrypt', b'aad', rng.randbytes(i), b'text', expect=never)
            if cls == A:
                p.on('w%d' % n, 'decrypt', b'aad', rng.randbytes(i), b'text', expect=never)
        for kl in (0, 16, 31, 33, 64):
            n += 1
            p.new('w%d' % n, cls, rng.randbytes(kl), rng.randbytes(4), expect=None)
            p.on('w%d' % n, 'encrypt', b'aad', rng.randbytes(8), b'text', expect=never)
    out.append(p)
    return [('main', out, {})]
