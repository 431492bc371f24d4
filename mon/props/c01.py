from ..prog import Prog, V, eq
from ..oracle import edges, sym
from .. import gen

CH = 'cryptopy.cipher.chacha_poly:ChaCha'
MOD = 'cryptopy.cipher.chacha_poly:'
ROUNDS = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]
RULE = ('one history = objects of the stream cipher built for one key, nonce and starting counter, asked to encrypt and to '
        'decrypt messages of every length class (each length 0..200, around multiples of 64, long ones); keys, nonces '
        'and data are random or extreme (zero, ones, one bit), counters are 0, 1, random, around 2^31 and near 2^32; '
        'keys, nonces and counters that differ in one part only; also single blocks and quarter and double rounds on edge words, and states whose sums are at the edge of a word in each step. Non-trivial: the history has at least one call compared '
        'octet for octet with the independent RFC 8439 oracle')


def counter(rng, blocks):
    k = rng.randrange(7)
    c = (0, 1, rng.randrange(256), rng.getrandbits(31), 2 ** 31 - rng.randrange(4), rng.getrandbits(32),
         2 ** 32 - blocks - rng.randrange(4))[k]
    return max(0, min(c, 2 ** 32 - blocks))


def one(rng, n, p, i):
    key, nonce, data = gen.octets(rng, 32), gen.octets(rng, 12), gen.octets(rng, n)
    c = counter(rng, (n + 63) // 64)
    want = sym.chacha(key, c, nonce, data)
    if rng.randrange(2):
        p.new('c%d' % i, CH, key, c, nonce)
    else:
        p.new('c%d' % i, CH, key, k={'counter': c, 'nonce': nonce})
    p.on('c%d' % i, rng.choice(('encrypt', 'decrypt')), data, expect=eq(want))


M32 = 0xffffffff
EDGES = (0, M32, M32 + 1, M32 + 2, 1 << 31, (1 << 31) - 1, M32 - 1)


def rotr(x, n):
    return (x >> n | x << (32 - n)) & M32


def edge_quarter(rng, a, step, total):
    """ b, c, d so that the addition of the given step of a quarter round comes to the total (mod 2^32 when the words cannot) """
    b, c, d = (rng.getrandbits(32) for _ in 'bcd')
    first = (a + b) & M32
    if step == 0:
        b = (total - a) & M32
    elif step == 1:
        c = (total - sym.rotl(d ^ first, 16)) & M32
    else:
        b1 = (total - first) & M32 if step == 2 else rng.getrandbits(32)
        c1 = rotr(b1, 12) ^ b
        a2 = (first + b1) & M32
        d1 = (c1 - c) & M32
        if step == 3:
            d1 = rotr((total - c1) & M32, 8) ^ a2
            c = (c1 - d1) & M32
        d = rotr(d1, 16) ^ first
    return [a, b, c, d]


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    lengths = sorted(set(range(0, 201)) | set(gen.near(64, 1400 if not big else 6000)))
    for rep in range(2 if not big else 25):
        ls = list(lengths)
        rng.shuffle(ls)
        for part in gen.chunks(ls, 20):
            p = Prog('message lengths')
            for i, n in enumerate(part):
                one(rng, n, p, i)
            out.append(p)
    for rep in range(10 if not big else 120):
        p = Prog('related parameters')
        k, n, c = gen.octets(rng, 32), gen.octets(rng, 12), rng.choice((0, 1, 2, 255, 256, rng.getrandbits(31)))
        keys = [k, k[:31] + bytes([k[31] ^ 1]), k[16:] + k[:16], bytes([k[0] ^ 0x80]) + k[1:], k[:16] + k[:16]]
        nonces = [n, n[4:] + n[:4], n[:11] + bytes([n[11] ^ 1]), bytes([n[0] ^ 1]) + n[1:], bytes(4) + n[4:]]
        keys.append(gen.flip(rng, k))
        nonces.append(gen.flip(rng, n))
        ms = [gen.octets(rng, 1 + (gen.size(rng, 2500) if rep % 3 == 0 else rng.randrange(200)))]
        ms += [gen.flip(rng, ms[0]), ms[0] + b'\0']
        for i in range(16):
            m = rng.choice(ms)
            a = rng.choice(keys), c + rng.randrange(3), rng.choice(nonces)
            p.new('c%d' % (i % 5), CH, *a)
            p.on('c%d' % (i % 5), 'encrypt', m, expect=eq(sym.chacha(*a, m)))
            if i % 5 == 4:      # the same object set up again
                a = rng.choice(keys), c + rng.randrange(3), rng.choice(nonces)
                o = 'c%d' % rng.randrange(5)
                p.on(o, 'initialize', *a)
                p.on(o, 'encrypt', m, expect=eq(sym.chacha(*a, m)))
        out.append(p)
    for n in [4096, 5000, 8191, 16384 + 1, 32768] + ([65536, 65537, 100000, 200000, 262144, 1 << 19] if big else [65600, 131100]):
        p = Prog('long messages', cost=n / 4000.)
        one(rng, n, p, 0)
        out.append(p)
    # every single key / nonce bit and octet position reaches the right word
    for which, size in (('key', 32), ('nonce', 12)):
        for part in gen.chunks(list(range(size * 8)), 32):
            p = Prog('single bits of the ' + which)
            for b in part:
                v = bytearray(size)
                v[b // 8] = 1 << (b % 8)
                key, nonce = (bytes(v), bytes(12)) if which == 'key' else (bytes(32), bytes(v))
                p.new('c', CH, key, 0, nonce)
                p.on('c', 'encrypt', bytes(64), expect=eq(sym.chacha(key, 0, nonce, bytes(64))))
            out.append(p)
    p = Prog('single bits of the counter')
    for b in range(32):
        p.new('c', CH, bytes(32), 1 << b, bytes(12))
        p.on('c', 'encrypt', bytes(64), expect=eq(sym.chacha(bytes(32), 1 << b, bytes(12), bytes(64))))
    out.append(p)
    for rep in range(6 if not big else 60):
        p = Prog('block function')
        for i in range(12):
            key, nonce, c = gen.octets(rng, 32), gen.octets(rng, 12), gen.word32(rng)
            p.new('c', CH, key, c, nonce)
            p.on('c', 'chacha20_block', expect=eq(sym.chacha_block(key, c, nonce)))
        out.append(p)
    for rep in range(8 if not big else 80):
        p = Prog('quarter round')
        for i in range(40):
            w = [gen.word32(rng) for _ in range(4)]
            p.call(MOD + 'chacha_q_round', *w, expect=eq(list(sym.quarter(*w))))
        for i in range(10):
            s = [gen.word32(rng) for _ in range(16)]
            at = rng.choice(ROUNDS) if i < 8 else tuple(rng.sample(range(16), 4))
            p.op('list', s, d='s', q=1)
            p.call(MOD + 'quarter_round', V('s'), *at, mut=True)
            for x, v in zip(at, sym.quarter(*[s[x] for x in at])):
                s[x] = v
            p.op('list', V('s'), expect=eq(s))
            p.call(MOD + 'inner_block', V('s'), mut=True)
            for at in ROUNDS:
                for x, v in zip(at, sym.quarter(*[s[x] for x in at])):
                    s[x] = v
            p.op('list', V('s'), expect=eq(s))
        out.append(p)
    # additions that come to exactly 2^32, or next to it: in each step of a quarter round, in the first round of a block, at the end of it
    for rep in range(3 if not big else 30):
        p = Prog('quarter round')
        for step in range(4):
            for total in EDGES:
                w = edge_quarter(rng, rng.choice((gen.word32(rng), rng.getrandbits(32))), step, total)
                p.call(MOD + 'chacha_q_round', *w, expect=eq(list(sym.quarter(*w))))
        out.append(p)
        for step in range(4):
            p = Prog('sums at the edge of a word')
            for col in range(4):
                for total in EDGES:
                    st = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + [rng.getrandbits(32) for _ in range(12)]
                    for c in range(4):
                        st[c::4] = edge_quarter(rng, st[c], step, total if c == col else rng.choice(EDGES))
                    b = b''.join(x.to_bytes(4, 'little') for x in st)
                    p.new('c', CH, b[16:48], st[12], b[52:])
                    if st[12] < (1 << 32) - 3 and rng.randrange(2):
                        m = gen.octets(rng, rng.choice((64, 65, 130)))
                        p.on('c', 'encrypt', m, expect=eq(sym.chacha(b[16:48], st[12], b[52:], m)))
                    else:
                        p.on('c', 'chacha20_block', expect=eq(sym.chacha_block(b[16:48], st[12], b[52:])))
            out.append(p)
    p = Prog('sums at the edge of a word')
    for seed, counter, word, which in edges.EDGE_BLOCKS:
        key, c, nonce = edges.edge_block(seed, counter)
        want = sym.chacha_block(key, c, nonce)
        assert which[0] == 'x' or want[4 * word:4 * word + 4] == (bytes(4) if which == 'o0' else b'\xff' * 4)
        p.new('c', CH, key, c, nonce)
        p.on('c', 'encrypt', bytes(64), expect=eq(want))
    out.append(p)
    return [('main', out, {})]
