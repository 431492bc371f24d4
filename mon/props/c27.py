from ..prog import Prog, V, eq, refused, pred
from .. import gen
from ..oracle import misc
from ..oracle.sym import SBOX

RULE = ('one history = Boolean functions (all of 1 to 3 variables, random, linear, bent, sparse ones to 9 variables) through walshTransform and '
        'nonLinearity of both modules, or S-boxes of 1 to 8 bits (AES, random, affine, constant, not bijective, with one linear or bent component at each place) through sboxNonlinearity, or '
        'binaryInnerProduct and log2n. Non-trivial: every history')
MODS = ('walshtransform:', 'sbox_nonlinearity:')


def boolean(rng, n, k=None):
    size = 1 << n
    k = rng.randrange(7) if k is None else k
    if k == 0:
        w, c = rng.randrange(size), rng.randrange(2)
        return [bin(w & x).count('1') + c & 1 for x in range(size)]
    if k == 1:
        return [rng.randrange(2)] * size
    if k == 2:
        t = [0] * size
        t[rng.randrange(size)] = 1
        return t
    if k == 3:
        h = n // 2
        return [bin((x & (1 << h) - 1) & (x >> h)).count('1') & 1 for x in range(size)]
    if k == 4:
        return [int(rng.randrange(8) == 0) for _ in range(size)]
    return [rng.randrange(2) for _ in range(size)]


def sbox(rng, n):
    size = 1 << n
    k = rng.randrange(6)
    if k == 0:
        return list(range(size))
    if k == 1:
        return [rng.randrange(size)] * size
    if k == 2:
        return [rng.randrange(size) for _ in range(size)]
    if k == 3:
        rows = [rng.randrange(size) for _ in range(n)]
        c = rng.randrange(size)
        return [sum((bin(r & x).count('1') & 1) << i for i, r in enumerate(rows)) ^ c for x in range(size)]
    s = list(range(size))
    rng.shuffle(s)
    return s


def with_component(rng, n, v, f):
    """ an S-box that is random but for the component v, which is f """
    i = rng.choice([i for i in range(n) if v >> i & 1])
    s = [rng.randrange(1 << n) for _ in range(1 << n)]
    return [y ^ (((bin(v & y).count('1') & 1) ^ f[x]) << i) for x, y in enumerate(s)]


def special(rng, n, v, bent):
    """ an S-box whose least (or greatest) nonlinearity comes from the component v alone, as far as 20 tries find one """
    for _ in range(20 if n < 7 else 1):
        f = boolean(rng, n, 3 if bent else 0)
        s = with_component(rng, n, v, f)
        if n > 6:
            break
        vals = [misc.nonlinearity([bin(c & y).count('1') & 1 for y in s]) for c in range(1, 1 << n)]
        edge = max(vals) if bent else min(vals)
        if vals.count(edge) == 1 and vals[v - 1] == edge:
            break
    return s


def seq(rng, l):
    return tuple(l) if rng.randrange(3) == 0 else list(l)


def functions(p, rng, t):
    for m in MODS:
        p.call(m + 'walshTransform', seq(rng, t), expect=eq(misc.walsh(t)))
        if len(t) > 1:
            p.call(m + 'nonLinearity', seq(rng, t), expect=eq(misc.nonlinearity(t)))


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for n in (0, 1, 2, 3):
        p = Prog('all Boolean functions of few variables', cost=4)
        size = 1 << n
        for f in range(1 << size):
            functions(p, rng, [f >> i & 1 for i in range(size)])
        out.append(p)
    for n, count in ((4, 30), (5, 20), (6, 12), (7, 6), (8, 3), (9, 2)) + (((10, 1),) if big else ()):
        for _ in range(count if not big else 10 * count):
            p = Prog('Boolean functions', cost=4.0 ** (n - 5))
            functions(p, rng, boolean(rng, n))
            out.append(p)
    for n, count in ((1, 4), (2, 12), (3, 25), (4, 25), (5, 8), (6, 3)):
        for _ in range(count if not big else 6 * count):
            p = Prog('S-boxes', cost=8.0 ** (n - 4))
            for _ in range(2 if n < 6 else 1):
                s = sbox(rng, n)
                p.call('sbox_nonlinearity:sboxNonlinearity', seq(rng, s), expect=eq(misc.sbox_nonlinearity(s)))
            out.append(p)
    # the peak of the transform at every place and of either sign; the least and greatest nonlinearity in every component
    for n in (4, 5) + ((6,) if big else ()):
        for part in gen.chunks(list(range(2 << n)), 16):
            p = Prog('every affine function', cost=16 * 4.0 ** (n - 5))
            for k in part:
                t = [bin(k >> 1 & x).count('1') + k & 1 for x in range(1 << n)]
                for _ in range(rng.choice((0, 0, 1, (1 << n) // 8))):
                    t[rng.randrange(1 << n)] ^= 1
                functions(p, rng, t)
            out.append(p)
    for n in (2, 3, 4, 5, 6):
        masks = list(range(1, 1 << n))
        if n == 6 and not big:
            masks = rng.sample(masks, 5) + [63]
        for part in gen.chunks(masks, 4 if n < 6 else 1):
            p = Prog('S-boxes with one special component', cost=2 * len(part) * 8.0 ** (n - 4))
            for v in part:
                for bent in (0, 1) if n < 6 or big else (rng.randrange(2),):
                    s = special(rng, n, v, bent)
                    p.call('sbox_nonlinearity:sboxNonlinearity', seq(rng, s), expect=eq(misc.sbox_nonlinearity(s)))
            out.append(p)
    p = Prog('S-boxes', cost=100)
    s = special(rng, 7, rng.randrange(1, 128), 0)
    p.call('sbox_nonlinearity:sboxNonlinearity', s, expect=eq(misc.sbox_nonlinearity(s)))
    out.append(p)
    p = Prog('the AES S-box', cost=500)
    p.call('sbox_nonlinearity:sboxNonlinearity', tuple(SBOX), expect=eq((112, 112)))
    out.append(p)
    for _ in range(2 if not big else 10):
        p = Prog('S-boxes of 8 bits', cost=500)
        s = special(rng, 8, rng.choice((255, rng.randrange(1, 256))), 0) if rng.randrange(3) else sbox(rng, 8)
        p.call('sbox_nonlinearity:sboxNonlinearity', seq(rng, s), expect=eq(misc.sbox_nonlinearity(s)))
        out.append(p)
    for _ in range(20 if not big else 150):
        p = Prog('tables changed by the caller', cost=2)
        n = rng.randrange(1, 5)
        t = boolean(rng, n)
        p.op('list', t, d='t', q=1)
        s = sbox(rng, n)
        p.op('list', s, d='s', q=1)
        for _ in range(6):
            for m in MODS:
                p.call(m + 'walshTransform', V('t'), d='w', expect=eq(misc.walsh(t)))
                p.op('setitem', V('w'), 0, 7, mut=True, q=1, expect=None)
                p.call(m + 'nonLinearity', V('t'), expect=eq(misc.nonlinearity(t)))
            p.call('sbox_nonlinearity:sboxNonlinearity', V('s'), expect=eq(misc.sbox_nonlinearity(s)))
            i = rng.randrange(1 << n)
            t[i] ^= 1
            p.op('setitem', V('t'), i, t[i], mut=True, q=1)
            i, c = rng.randrange(1 << n), rng.randrange(1 << n)
            s[i] = c
            p.op('setitem', V('s'), i, c, mut=True, q=1)
        out.append(p)
    p = Prog('inner products')
    for m in MODS:
        for a in range(18):
            for b in range(18):
                p.call(m + 'binaryInnerProduct', a, b, expect=eq(bin(a & b).count('1') & 1))
        for _ in range(60):
            a, b = rng.getrandbits(rng.choice((8, 31, 32, 33, 64, 100))), rng.getrandbits(rng.choice((8, 32, 64, 100)))
            p.call(m + 'binaryInnerProduct', a, b, expect=eq(bin(a & b).count('1') & 1))
    out.append(p)
    p = Prog('logarithms and sizes that are no power of 2')
    for m in MODS:
        for n in range(1, 300):
            p.call(m + 'log2n', n, expect=eq(n.bit_length() - 1) if n & n - 1 == 0 else refused)
        for e in (31, 32, 33, 62, 63, 64, 100):
            p.call(m + 'log2n', 1 << e, expect=eq(e))
            p.call(m + 'log2n', (1 << e) + 1, expect=refused)
            p.call(m + 'log2n', (1 << e) - 1, expect=refused)
        for n in (3, 5, 6, 7, 9, 12, 15, 17, 24, 31, 33):
            t = [rng.randrange(2) for _ in range(n)]
            p.call(m + 'walshTransform', t, expect=refused)
            p.call(m + 'nonLinearity', t, expect=refused)
    for n in (3, 5, 6, 7, 12):
        p.call('sbox_nonlinearity:sboxNonlinearity', list(range(n)), expect=refused)
    out.append(p)
    return [('main', out, {})]
