from ..prog import Prog, V, M, eq, pred
from ..oracle import misc
from ..oracle.sym import SBOX
import itertools

RULE = ('one history = permutations (all of up to 5 elements, identity, single cycles in order and against it, involutions, random ones to '
        '600 elements, the AES and SMS4 S-boxes) through map_orbits_of_permutation and orbit_start_and_length of both modules, held '
        'against the cycle decomposition. Non-trivial: every history')
MODS = ('permutation:', 'sbox_analysis:')


def sm4_sbox():
    """ GB/T 32907: affine map, inverse in GF(2^8) mod x^8+x^7+x^6+x^5+x^4+x^2+1, affine map """
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 256:
                a ^= 0x1f5
            b >>= 1
        return r

    def affine(x):
        r = 0
        for i in range(8):
            row = (0xa7 << i | 0xa7 >> 8 - i) & 255
            r |= (bin(row & x).count('1') & 1) << i
        return r ^ 0xd3
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if mul(a, b) == 1:
                inv[a] = b
    return [affine(inv[affine(x)]) for x in range(256)]


def orbits(want):
    def good(d):
        return isinstance(d, dict) and {k: list(v) for k, v in d.items()} == want
    return pred(good, 'the cycles %r' % (want if len(want) < 20 else len(want)))


def lengths(want):
    w = sorted([k, len(c)] for k, c in want.items())
    return pred(lambda r: sorted(map(list, r)) == w, 'the cycle starts and lengths %r' % (w,))


def both(p, perm, arg=None):
    want = misc.cycles(perm)
    for m in MODS:
        p.call(m + 'map_orbits_of_permutation', perm if arg is None else arg, expect=orbits(want))
        p.call(m + 'orbit_start_and_length', perm if arg is None else arg, expect=lengths(want))


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 6 if not big else 8):
        perms = list(itertools.permutations(range(n)))
        for i in range(0, len(perms), 60):
            p = Prog('all small permutations')
            for q in perms[i:i + 60]:
                both(p, list(q) if i % 2 else q)
            out.append(p)
    for n in (1, 2, 3, 7, 16, 17, 64, 100, 255, 256, 257, 600):
        p = Prog('permutations of a chosen shape', cost=n / 100.)
        both(p, list(range(n)))
        both(p, [(i + 1) % n for i in range(n)])
        both(p, [(i - 1) % n for i in range(n)])
        both(p, [n - 1 - i for i in range(n)])
        k = rng.randrange(1, n + 1)
        both(p, [(i + k) % n for i in range(n)])
        two = list(range(n))
        a, b = rng.randrange(n), rng.randrange(n)
        two[a], two[b] = two[b], two[a]
        both(p, two)
        idx = list(range(n))
        rng.shuffle(idx)
        one = [0] * n
        for i in range(n):
            one[idx[i]] = idx[(i + 1) % n]
        both(p, one)
        out.append(p)
    for _ in range(100 if not big else 1500):
        p = Prog('random permutations')
        n = rng.randrange(2, 300)
        q = list(range(n))
        rng.shuffle(q)
        both(p, tuple(q) if rng.randrange(2) else q)
        out.append(p)
    for _ in range(30 if not big else 200):
        p = Prog('permutations changed by the caller')
        n = rng.choice((2, 5, 16, 40, 256))
        q = list(range(n))
        rng.shuffle(q)
        p.op('list', q, d='q', q=1)
        for _ in range(5):
            want = misc.cycles(q)
            for m in MODS:
                p.call(m + 'map_orbits_of_permutation', V('q'), d='r', expect=orbits(want))
                p.op('setitem', V('r'), 0, [0], mut=True, q=1, expect=None)
                p.call(m + 'orbit_start_and_length', V('q'), d='r', expect=lengths(want))
                p.op('append', V('r'), [0, 0], mut=True, q=1, expect=None)
            i, j = rng.randrange(n), rng.randrange(n)
            q[i], q[j] = q[j], q[i]
            p.op('setitem', V('q'), i, q[i], mut=True, q=1)
            p.op('setitem', V('q'), j, q[j], mut=True, q=1)
        out.append(p)
    for n in (1000, 1024, 2048, 4096, 5000):
        p = Prog('long permutations', cost=n / 100.)
        q = list(range(n))
        rng.shuffle(q)
        both(p, q)
        both(p, [(i + 1) % n for i in range(n)])
        both(p, [(i - 1) % n for i in range(n)])
        out.append(p)
    p = Prog('the AES and SMS4 S-boxes')
    for m in MODS:
        for name, s in (('aes', list(SBOX)), ('sms4', sm4_sbox())):
            v = m + name + '_sbbytes'
            p.call('val:' + v, expect=eq(s))
            p.call(m + 'map_orbits_of_permutation', M(v), expect=orbits(misc.cycles(s)))
            p.call(m + 'orbit_start_and_length', M(v), expect=lengths(misc.cycles(s)))
    out.append(p)
    return [('main', out, {})]
