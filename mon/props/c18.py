import json
import os
from ..prog import Prog, eq, refused
from .. import gen
from ..oracle import nt
from ..oracle.liars import LIARS

RULE = ('one history = a run of is_prime, next_prime, rabin_miller or fermat_little_test calls: every small integer, both sides of the '
        'small prime table, primes and prime gaps up to 1500 bits, Carmichael numbers, squares and products of two primes, and strong '
        'pseudoprimes to many small bases made for every size class of the round table; or the tables smallprimes and primes_to_5k as a '
        'whole. Non-trivial: every history')
ASSUMPTIONS = ['a composite whose strong pseudoprimality covers every base of the documented round table may be accepted (none is run)']
N = 'cryptopy.ecc.numbertheory:'
F = 'cryptopy.fmath.prime:'
PRIMES = [q for q in range(2, 5000) if nt.is_prime(q)]
PSP = [int(n) for n in json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'oracle', 'pseudoprimes.json')))]
# strong pseudoprimes to the first k prime bases (OEIS A014233), and Carmichael numbers
PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
       318665857834031151167461, 3317044064679887385961981]
CARM = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921,
        126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461]


def rounds(n):
    """ the documented numbers of rounds by size """
    t = 40
    for k, tt in ((100, 27), (150, 18), (200, 15), (250, 12), (300, 9), (350, 8), (400, 7), (450, 6), (550, 5), (650, 4), (850, 3), (1300, 2)):
        # the size is a rounded logarithm: numbers just below a power of two may count as one bit longer
        b = n.bit_length()
        if b + (b > 40 and n >> b - 40 == (1 << 40) - 1) < k:
            break
        t = tt
    return t


def must_reject(n):
    return any(not nt.strong_probable_prime(n, a) for a in PRIMES[:rounds(n)])


def prime(p, n):
    if nt.is_prime(n):
        p.call(N + 'is_prime', n, expect=eq(True))
    elif n < 3 or n % 2 == 0 or must_reject(n):
        p.call(N + 'is_prime', n, expect=eq(False))


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    p = Prog('tables')
    p.call('val:' + N + 'smallprimes', expect=eq([q for q in PRIMES if q <= 1229]))
    p.call('val:cryptopy.fmath.primes_to_5k:primes_to_5k', expect=eq(PRIMES))
    out.append(p)
    step = 250
    for lo in range(-50, 6000 if not big else 60000, step):
        p = Prog('every small integer')
        for n in range(lo, lo + step):
            prime(p, n)
        out.append(p)
        p = Prog('next prime of small integers')
        for n in range(lo, lo + step, 1 if lo < 2600 else 5):
            p.call(N + 'next_prime', n, expect=eq(nt.next_prime(n) if n >= 2 else 2))
        out.append(p)
    p = Prog('squares and products of primes past the table', cost=2)
    qs = [q for q in range(1200, 1400) if nt.is_prime(q)]
    for i, q in enumerate(qs):
        for r in qs[i:i + 6]:
            prime(p, q * r)
            prime(p, q * r * r)
    out.append(p)
    p = Prog('strong pseudoprimes', cost=3)
    for n in PSI:
        prime(p, n)
    for n in PSP:
        prime(p, n)
    out.append(p)
    # composites which only the last base of their size finds out
    for at in range(0, len(LIARS), 10):
        p = Prog('composites that only the last base of the table finds out', cost=3)
        for bits, r, n in LIARS[at:at + 10]:
            assert not nt.is_prime(n)
            prime(p, n)
            for a in [a for a in PRIMES[:r]][-3:]:
                p.call(F + 'rabin_miller', n, a, expect=eq(int(nt.strong_probable_prime(n, a))))
        out.append(p)
    # spsp(2) of the form (k+1)(2k+1), and Carmichael numbers of Chernick's form
    p = Prog('Carmichael numbers and their like', cost=2)
    for n in CARM:
        prime(p, n)
    for _ in range(30 if not big else 300):
        while True:
            k = rng.getrandbits(rng.choice((10, 16, 24, 32)))
            if k and nt.is_prime(6 * k + 1) and nt.is_prime(12 * k + 1) and nt.is_prime(18 * k + 1):
                break
        prime(p, (6 * k + 1) * (12 * k + 1) * (18 * k + 1))
        q = nt.next_prime(rng.getrandbits(rng.choice((16, 30, 40))) + 2000)
        while not nt.is_prime(2 * q - 1):
            q = nt.next_prime(q)
        prime(p, q * (2 * q - 1))
    out.append(p)
    for bits in [11, 12, 14, 16, 20, 24, 30, 31, 32, 33, 40, 48, 53, 54, 63, 64, 65, 80, 96, 128, 99, 100, 101, 149, 150, 151, 199, 200, 201, 249, 250,
                 251, 299, 300, 301, 349, 351, 399, 401, 449, 451, 549, 551, 649, 651] + [849, 851, 1024, 1299, 1301, 1500] * (1 if not big else 3):
        p = Prog('primes and composites of every size', cost=(bits / 100.) ** 2 + .2)
        near = nt.next_prime(rng.getrandbits(bits - 1) | 1 << bits - 1) if bits < 600 or big else None
        if bits < 600 or big:
            prime(p, near)
            prime(p, near)
            if bits <= 330:
                prv = nt.prev_prime(near)
                p.call(N + 'next_prime', near - 1, expect=eq(near))
                p.call(N + 'next_prime', prv, expect=eq(near))
                p.call(N + 'next_prime', near, expect=eq(nt.next_prime(near)))
            half = bits // 2
            q, r = (nt.next_prime(rng.getrandbits(half) | 1 << half - 1 | 3000) for _ in 'ab')
            prime(p, q * r)
            prime(p, q * q)
        for _ in range(6):
            prime(p, rng.getrandbits(bits) | 1 | 1 << bits - 1)
            n = rng.getrandbits(bits) | 1 << bits - 1
            prime(p, n - n % 2)
        out.append(p)
    p = Prog('known large primes', cost=12)
    for e in (61, 89, 107, 127, 521, 607, 1279):
        prime(p, 2 ** e - 1)
    for e in (67, 101, 137, 257, 263, 523, 1277, 1303, 1423):
        prime(p, 2 ** e - 1)
    for e in (4, 5, 6, 7, 8, 9):
        prime(p, 2 ** (2 ** e) + 1)
    for n in (2 ** 255 - 19, 2 ** 448 - 2 ** 224 - 1, 2 ** 256 - 2 ** 32 - 977, 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1):
        prime(p, n)
        prime(p, n + 2)
        prime(p, n * 3)
    out.append(p)
    # calls about each other: numbers of one gap in any order and again, numbers nearly alike
    for _ in range(25 if not big else 250):
        p = Prog('numbers around each other', cost=2)
        bits = rng.choice((4, 6, 9, 10, 11, 14, 20, 31, 33, 40, 64, 66, 90))
        n = rng.getrandbits(bits) + 2
        ns = [n]
        for _ in range(rng.randrange(2, 5)):
            ns.append(nt.next_prime(ns[-1]))
        ns += [x + d for x in ns for d in (-2, -1, 1, 2)] + [rng.randrange(n, ns[-1] + 1) for _ in range(4)]
        ns += [gen.alike(rng, n, 1 << 132) for _ in range(3)]
        ns = [rng.choice(ns) for _ in range(40)]
        for x in ns:
            if x >= 0 and rng.randrange(3):
                p.call(N + 'next_prime', x, expect=eq(nt.next_prime(x) if x >= 2 else 2))
            else:
                prime(p, x)
        out.append(p)
    # maximal prime gaps
    p = Prog('prime gaps')
    for lo, gap in ((1327, 34), (31397, 72), (370261, 112), (492113, 114), (2010733, 148), (20831323, 210), (436273009, 282), (10726904659, 382)):
        for n in (lo, lo + 1, lo + 2, lo + gap // 2, lo + gap - 1):
            p.call(N + 'next_prime', n, expect=eq(lo + gap))
        p.call(N + 'next_prime', lo - 1, expect=eq(lo))
    out.append(p)
    # single rounds
    for n in list(range(3, 120 if not big else 400, 2)):
        p = Prog('Rabin-Miller and Fermat rounds, all bases')
        for a in range(1, n):
            p.call(F + 'rabin_miller', n, a, expect=eq(int(nt.strong_probable_prime(n, a))))
        for a in range(-2, n + 2):
            p.call(F + 'fermat_little_test', n, a, expect=eq(int(pow(a, n - 1, n) == 1)))
        for a in (0, n, -1, n + 1):
            p.call(F + 'rabin_miller', n, a, expect=refused)
        out.append(p)
    p = Prog('rounds at 2')
    p.call(F + 'rabin_miller', 2, 1, expect=eq(1))
    p.call(F + 'fermat_little_test', 2, 1, expect=eq(1))
    p.call(F + 'fermat_little_test', 2, 4, expect=eq(0))
    out.append(p)
    for _ in range(30 if not big else 300):
        p = Prog('Rabin-Miller and Fermat rounds')
        for _ in range(15):
            k = rng.randrange(6)
            n = (rng.choice(PSI) if k == 0 else rng.choice(CARM) if k == 1 else rng.choice(PSP) if k == 2 else
                 nt.next_prime(rng.getrandbits(rng.choice((8, 32, 64, 160)))) if k == 3 else
                 (rng.getrandbits(rng.choice((4, 8, 24)) + 1) << rng.randrange(5, 70)) + 1 if k == 4 else rng.getrandbits(rng.choice((16, 33, 64, 200))) | 1)
            if n < 3 or n % 2 == 0:
                continue
            a = rng.choice((1, 2, 3, 5, n - 1, n - 2, n // 2, rng.randrange(1, n), rng.randrange(1, n)))
            if not 1 <= a < n:
                continue
            p.call(F + 'rabin_miller', n, a, expect=eq(int(nt.strong_probable_prime(n, a))))
            b = rng.choice((a, -a, a + n, 0, n, n * n - 1))
            p.call(F + 'fermat_little_test', n, b, expect=eq(int(pow(b, n - 1, n) == 1)))
            # strong liars: roots of 1 and of -1
        out.append(p)
    for _ in range(20 if not big else 200):
        # primes with a high power of 2 in n-1: every length of the squaring chain
        e, k = rng.randrange(4, 40), 1
        while not nt.is_prime((k << e) + 1):
            k += 2
        n = (k << e) + 1
        p = Prog('long squaring chains')
        for _ in range(10):
            a = pow(rng.randrange(2, n), 1 << rng.randrange(0, e + 1), n)
            if a:
                p.call(F + 'rabin_miller', n, a, expect=eq(1))
        prime(p, n)
        m = n * ((k << e + 1) + 1)
        prime(p, m)
        out.append(p)
    return [('main', out, {})]
