from ..prog import Prog, eq, refused, eq_or_refused
from ..oracle import misc
from .. import gen

RULE = ('one history = a run of PRF / PRF_128 ... PRF_768 calls: keys of 0 to 150 octets, any prefix and data, every octet count to 200 and '
        'long outputs to the 256 block limit; bit counts that are not whole octets. Non-trivial: every history')
F = 'cryptopy.hash.prf_dot11:'
NAMED = (128, 192, 256, 384, 512, 768)


def draw(rng):
    return (gen.octets(rng, rng.choice((0, 1, 16, 20, 32, 63, 64, 65, 80, 128, rng.randrange(150)))),
            gen.octets(rng, rng.choice((0, 1, 8, 22, rng.randrange(60)))), gen.octets(rng, rng.choice((0, 1, 8, 43, 44, 64, 76, rng.randrange(140)))))


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 200 if not big else 1200):
        p = Prog('every output size')
        for _ in range(3):
            k, a, b = draw(rng)
            p.call(F + 'PRF', k, a, b, 8 * n, expect=eq(misc.prf(k, a, b, 8 * n)))
        for r in range(1, 8):
            p.call(F + 'PRF', k, a, b, 8 * n + r, expect=refused)
        out.append(p)
    for _ in range(60 if not big else 600):
        p = Prog('named sizes')
        for bits in NAMED:
            k, a, b = draw(rng)
            p.call(F + 'PRF_%d' % bits, k, a, b, expect=eq(misc.prf(k, a, b, bits)))
        # the boundary between label and data counts
        if len(a) > 1:
            p.call(F + 'PRF', k, a[:-1], a[-1:] + b, 512, expect=eq(misc.prf(k, a[:-1], a[-1:] + b, 512)))
        p.call(F + 'PRF', k, a + b'\0', b, 512, expect=eq(misc.prf(k, a + b'\0', b, 512)))
        out.append(p)
    for n in (1000, 2559, 2560, 2561, 5099, 5100, 5101, 5118, 5119) + tuple(rng.randrange(200, 5119) for _ in range(12)):
        p = Prog('long outputs', cost=3)
        k, a, b = draw(rng)
        p.call(F + 'PRF', k, a, b, 8 * n, expect=eq(misc.prf(k, a, b, 8 * n)))
        out.append(p)
    for n in (255, 256, 257, 1000, 1024, 5000, rng.randrange(6000, 20000)):
        p = Prog('long keys, labels and data', cost=2)
        k, a, b = draw(rng)
        x = gen.octets(rng, n)
        for args in ((x, a, b), (k, x, b), (k, a, x)):
            bits = 8 * rng.randrange(1, 120)
            p.call(F + 'PRF', *args, bits, expect=eq(misc.prf(*args, bits)))
            p.call(F + 'PRF_%d' % 384, *args, expect=eq(misc.prf(*args, 384)))
        out.append(p)
    for _ in range(30 if not big else 300):
        p = Prog('related arguments', cost=2)
        k, a, b = (rng.randbytes(1 + (gen.size(rng, 600) if len(out) % 2 else rng.randrange(39))) for _ in 'kab')
        todo = [(k, a, b), (k, b, a), (a, k, b), (gen.flip(rng, k), a, b), (k, gen.flip(rng, a), b), (k, a, gen.flip(rng, b)), (k, a + b[:1], b[1:]),
                (k, a, b + b'\0'), (k, a + b'\0', b), (k + b'\0', a, b), (k, b'', a + b), (k, a + b, b'')]
        todo = [(x, rng.choice(NAMED + (8, 160, 168, 320))) for x in todo * 2]
        rng.shuffle(todo)
        for x, bits in todo:
            if bits in NAMED and rng.randrange(2):
                p.call(F + 'PRF_%d' % bits, *x, expect=eq(misc.prf(*x, bits)))
            else:
                p.call(F + 'PRF', *x, bits, expect=eq(misc.prf(*x, bits)))
        out.append(p)
    p = Prog('negative sizes')
    for n in (-1, -7, -8, -9, -16, -128, -160, -8 << 30):
        p.call(F + 'PRF', b'k', b'a', b'b', n, expect=refused)
    out.append(p)
    p = Prog('beyond the block counter', cost=3)
    p.call(F + 'PRF', b'k', b'a', b'b', 8 * 5120, expect=eq_or_refused(misc.prf(b'k', b'a', b'b', 8 * 5119) + misc.hmac('sha1', b'k', b'a\0b\xff')[-1:]))
    for n in (5121, 5140, 6000):
        p.call(F + 'PRF', b'k', b'a', b'b', 8 * n, expect=refused)
    out.append(p)
    return [('main', out, {})]
