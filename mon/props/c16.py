import json
import os
from ..prog import Prog, eq, pred, refused
from ..oracle import nt, table
from .. import gen

PSEUDO = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle', 'pseudoprimes.json')

RULE = ('one history = one modulus and inverses (ecc.numbertheory, fmath.galoisfield, GFp.inverse), square roots (square_root_mod_prime, '
        'modular_sqrt), Legendre and Jacobi symbols under it. Exhaustive in the argument for all moduli below a bound; then primes of '
        'every class mod 8 and with a high power of 2 in p-1, with a large least non-residue, the primes of the published curves, primes to 640 bits, and random moduli to 600 bits. '
        'Non-trivial: every history')
N = 'cryptopy.ecc.numbertheory:'
G = 'cryptopy.fmath.galoisfield:'


def inv(p, a, m, where):
    fn = {'n': N + 'inverse_mod', 'g': G + 'inverse_mod'}[where]
    p.call(fn, a, m, expect=refused if nt.gcd(a, m) != 1 else eq(pow(a, -1, m)))


def roots(p, a, q):
    """ a in 0..q-1, q an odd prime """
    j = nt.jacobi(a, q)
    root = pred(lambda r: isinstance(r, int) and 0 <= r < q and r * r % q == a, 'a square root of %d mod %d' % (a, q))
    p.call(N + 'square_root_mod_prime', a, q, expect=refused if j == -1 else root)
    p.call(N + 'modular_sqrt', a, q, expect=root if j == 1 else eq(0))
    p.call(N + 'legendre_symbol', a, q, expect=eq(j))
    p.call(N + 'jacobi', a, q, expect=eq(j))


def tonelli_primes(rng, count):
    """ primes with a high power of 2 in p-1 """
    out = []
    while len(out) < count:
        e = rng.randrange(3, 60)
        k = rng.randrange(1, 1 << rng.randrange(2, 40)) | 1
        q = (k << e) + 1
        if nt.is_prime(q):
            out.append(q)
    return out


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    primes = [q for q in range(3, 260 if not big else 1300) if nt.is_prime(q)]
    for q in primes:
        p = Prog('square roots, all arguments', cost=q / 100.)
        for a in range(q):
            roots(p, a, q)
        p.call(N + 'square_root_mod_prime', q, q, expect=refused)
        p.call(N + 'square_root_mod_prime', -1, q, expect=refused)
        for a in (-1, -2, -q, q, q + 1, 2 * q - 1, -5 * q - 3, q * q + 2):
            j = nt.jacobi(a, q)
            p.call(N + 'jacobi', a, q, expect=eq(j))
            p.call(N + 'legendre_symbol', a, q, expect=eq(j))
            p.call(N + 'modular_sqrt', a, q, expect=pred(lambda r, a=a, q=q, j=j: r == 0 if j != 1 else 0 < r < q and (r * r - a) % q == 0,
                                                        'a square root of %d mod %d, or 0 for none' % (a, q)))
        out.append(p)
    p = Prog('square roots mod 2')
    p.call(N + 'square_root_mod_prime', 0, 2, expect=eq(0))
    p.call(N + 'square_root_mod_prime', 1, 2, expect=eq(1))
    out.append(p)
    for m in range(1, 70 if not big else 250):
        p = Prog('inverses, all arguments', cost=m / 100.)
        for a in range(-m - 2, 2 * m + 3):
            for w in 'ng':
                inv(p, a, m, w)
        out.append(p)
    # moduli that look like primes: pseudoprimes, Carmichael numbers, prime powers, products of two primes
    odd = [m for m in range(9, 3000 if not big else 30000, 2) if not nt.is_prime(m)]
    fake = [m for m in odd if pow(2, m - 1, m) == 1 or pow(3, m - 1, m) == 1]
    fake += [q ** e for q in (3, 5, 7, 11, 13, 31, 97, 1093, 3511) for e in (2, 3, 4)]
    fake += [int(s) for s in json.load(open(PSEUDO))][::1 if big else 3]
    rng.shuffle(fake)
    for part in gen.chunks(fake, 6):
        p = Prog('inverses, moduli that look prime')
        for m in part:
            for a in [2, 3, 4, 5, 6, 7, m - 1, m - 2, m + 2, -3] + [rng.randrange(m) for _ in range(6 if not big else 20)]:
                for w in 'ng':
                    inv(p, a, m, w)
                p.call(N + 'jacobi', a, m, expect=eq(nt.jacobi(a, m)))
        out.append(p)
    for n in range(3, 150 if not big else 500, 2):
        p = Prog('Jacobi symbols, all arguments', cost=n / 100.)
        for a in range(-3, n + 3):
            p.call(N + 'jacobi', a, n, expect=eq(nt.jacobi(a, n)))
        out.append(p)
    p = Prog('Jacobi symbols need an odd modulus')
    for n in (-3, -1, 0, 1, 2, 4, 8, 100, 2 ** 64):
        p.call(N + 'jacobi', 3, n, expect=refused)
    out.append(p)
    qs = sorted(set(C['p'] for C in table.PARAMS.values())) + tonelli_primes(rng, 25 if not big else 150)
    qs += [17 * 2 ** 27 + 1, 2 ** 16 + 1, 5 * 2 ** 25 + 1, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 107 - 1, 2 ** 521 - 1]
    for r in (1, 3, 5, 7):
        for bits in (16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 128, 200, 256, 384) + ((521, 600) if big else ()):
            q = nt.next_prime(rng.getrandbits(bits) | 1 << bits - 1)
            while q % 8 != r:
                q = nt.next_prime(q)
            qs.append(q)
    # one longer prime of each class
    for r in (1, 3, 5, 7):
        q = nt.next_prime(rng.getrandbits(rng.choice((530, 600, 640))) | 1 << 529)
        while q % 8 != r:
            q = nt.next_prime(q)
        qs.append(q)
    for q in qs:
        p = Prog('square roots, large primes', cost=(q.bit_length() / 100.) ** 2 + .3)
        s = rng.randrange(q)
        args = [0, 1, 2, 3, q - 1, q - 2, s * s % q, rng.randrange(q), 4, q // 2]
        # arguments with many zero or one bits
        bl = q.bit_length()
        for _ in range(4):
            h = rng.randrange(1, bl)
            args += [(rng.getrandbits(bl) >> h << h) % q, ((1 << h) - 1) % q, ((1 << h) + 1) ** 2 % q, (q - (1 << h)) % q]
        nr = next(n for n in range(2, q) if nt.jacobi(n, q) == -1)
        e, k = 0, q - 1
        while k % 2 == 0:
            e, k = e + 1, k // 2
        z = pow(nr, k, q)
        # elements of 2-power order: every branch of the Tonelli-Shanks loop
        for i in sorted(set([1, 2, e // 2, e - 1, e])):
            if 1 <= i <= e:
                args.append(pow(z, 1 << e - i, q))
                args.append(pow(z, 1 << e - i, q) * s * s % q)
        for a in args:
            roots(p, a, q)
        for w in 'ng':
            for a in (0, 1, -1, q - 1, q, s, -s, s + 5 * q, 2, (q + 1) // 2):
                inv(p, a, q, w)
        p.call(G + 'GFp', q, d='F', q=1)
        for a in (1, q - 1, s or 1):
            p.on('F', 'inverse', a, expect=eq(pow(a, -1, q)))
        p.on('F', 'inverse', 0, expect=refused)
        out.append(p)
    # the least non-residue is above a bound, so that every search for one is long
    for top in (7, 13, 23, 37, 53, 71, 101) + ((151, 199, 307) if big else (rng.choice((151, 199)),)):
        for e in (3, rng.randrange(4, 24)):
            step = 1 << e
            for x in range(3, top + 1, 2):
                if nt.is_prime(x):
                    step *= x
            k = rng.randrange(1, 1 << rng.choice((3, 16, 40))) | 1
            while not nt.is_prime(step * k + 1):
                k += 2
            q = step * k + 1
            p = Prog('square roots, the least non-residue is large', cost=(q.bit_length() / 100.) ** 2 + 1)
            s = rng.randrange(q)
            z = pow(next(n for n in range(2, q) if nt.jacobi(n, q) == -1), q - 1 >> e, q)
            args = [1, 2, 3, 4, 9, 25, top, q - 1, q - 4, s * s % q, s, pow(s, 4, q), z, pow(z, 2, q), z * z * s * s % q, pow(z, 6, q) * s * s % q, pow(s, 1 << e, q)]
            args += [(x * x - y * y) % q for x, y in ((3, 2), (7, 3), (top, 2))] + [pow(x, -1, q) for x in (2, 5, 12)]
            for a in args:
                roots(p, a, q)
            out.append(p)
    # the same few arguments under several moduli, in any order and again
    for _ in range(16 if not big else 120):
        bits = rng.choice((3, 4, 6, 8, 16, 31, 33, 64, 128))
        ms = [nt.next_prime(rng.getrandbits(bits) + 3) for _ in range(4)] + [rng.choice((97, 193, 257, 65537, 12289, 2 ** 31 - 1))]
        if rng.randrange(3) == 0:
            ms = gen.alike_primes(rng)
        elif rng.randrange(3) == 0:
            # primes with equal powers of 2 in p-1
            e = rng.randrange(3, 30)
            k = rng.randrange(1, 1 << 40) | 1
            ms = []
            while len(ms) < 4:
                k += 2
                if nt.is_prime((k << e) + 1):
                    ms.append((k << e) + 1)
        p = Prog('several moduli by turns', cost=1 + bits / 60.)
        low = min(ms)
        args = [1, 2, low - 1] + [rng.randrange(low) for _ in range(4)] + [x * x % low for x in (3, 5)]
        if low > 1 << 60:
            args += [gen.alike(rng, a, low) for a in args[:6]]
        todo = [(a, q) for a in args for q in ms] * 2
        rng.shuffle(todo)
        for a, q in todo:
            roots(p, a, q)
            inv(p, a, q, rng.choice('ng'))
            e = rng.choice((0, 1, 2, q - 1, q - 2, rng.getrandbits(bits), rng.getrandbits(2 * bits)))
            b = rng.choice((a, -a, a + q, rng.getrandbits(3 * bits)))
            m = rng.choice((q, q, q - 1, q * low, 2))
            if m > 1 or rng.randrange(4) == 0:
                m = max(m, 1)
                p.call(N + 'modular_exp', b, e, m, expect=eq(pow(b, e, m)))
                p.call(N + 'modular_exp', b, -1 - e, m, expect=refused)
        for r in range(3):
            p.call(G + 'GFp', ms[r], d='F%d' % r, q=1)
        for a in args * 2:
            for r in rng.sample(range(3), 3):
                if a % ms[r]:
                    p.on('F%d' % r, 'inverse', a, expect=eq(pow(a, -1, ms[r])))
        out.append(p)
    # moduli of a special form and any size
    for bits in [3, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 383, 384, 385, 511, 512, 521, 640, 768, 1000] + [1024, 1025, 1536, 2000, 2048][::1 if big else 2] + [
            rng.randrange(2, 1600) for _ in range(6 if not big else 40)]:
        p = Prog('moduli of a special form', cost=1 + bits / 500.)
        k = 1 << bits
        half = bits // 2
        for m in (k, k - 1, k + 1, k * 2, k * 3, 3 ** (bits * 12 // 19), 10 ** (bits * 3 // 10 + 1), (k - 1) // 3 * 3, k + (1 << half), k - (1 << half), (1 << half | 1) ** 2, k | rng.getrandbits(half) | 1):
            if m < 1:
                continue
            for a in (1, 3, m - 1, m // 2, m // 2 + 1, (1 << half) + 1, (1 << half) - 1, rng.randrange(m) | 1, -(rng.randrange(m) | 1), rng.getrandbits(bits + 70) | 1):
                inv(p, a, m, rng.choice('ng'))
                if m % 2 and m > 2:
                    p.call(N + 'jacobi', a, m, expect=eq(nt.jacobi(a, m)))
            b, e = rng.randrange(m), rng.choice((0, 1, 2, 3, 65537, rng.getrandbits(40), k, k - 1))
            p.call(N + 'modular_exp', b, e, m, expect=eq(pow(b, e, m)))
        out.append(p)
    for _ in range(30 if not big else 300):
        p = Prog('composite moduli')
        for _ in range(10):
            m = rng.getrandbits(rng.choice((8, 16, 31, 32, 33, 63, 64, 65, 128, 256, 600))) + 2
            if rng.randrange(2):
                m = m * rng.choice((2, 3, 6, 35, m)) + rng.randrange(2)
            a = rng.choice((rng.randrange(-m, m), rng.getrandbits(700), -rng.getrandbits(700), m // 2, m - 1))
            if rng.randrange(4) == 0:
                f = rng.choice([f for f in (2, 3, 5, 7, 11) if m % f == 0] or [1])
                a = a // f * f
            inv(p, a, m, 'n')
            inv(p, a, m, 'g')
            n = m | 1
            if n >= 3:
                p.call(N + 'jacobi', a, n, expect=eq(nt.jacobi(a, n)))
        # consecutive Fibonacci numbers: the longest runs of Euclid's algorithm
        x, y = 1, 2
        for _ in range(rng.randrange(20, 700)):
            x, y = y, x + y
        inv(p, x, y, 'n')
        inv(p, x, y, 'g')
        if y % 2:
            p.call(N + 'jacobi', x, y, expect=eq(nt.jacobi(x, y)))
        out.append(p)
    return [('main', out, {})]
