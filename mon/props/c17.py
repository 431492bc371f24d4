from ..prog import Prog, V, L, eq, pred, refused
from .. import gen
from ..oracle import nt
from functools import reduce
import math

RULE = ('one history = a run of calls of gcd, lcm, factorization, phi, carmichael, carmichael_of_factorized, carmichael_of_ppower, '
        'order_mod, largest_factor_relatively_prime or kinda_order_mod: all small arguments, and larger ones built from chosen prime '
        'powers (repeated primes, primes around the end of the small prime table, large prime cofactors, powers of any size, groups of smooth order with elements for each kind of divisor). Non-trivial: every history')
N = 'cryptopy.ecc.numbertheory:'


def ordered(f):
    """ factor lists are compared as sets: the order is not promised """
    want = sorted(map(list, f))
    return pred(lambda r: isinstance(r, list) and sorted(map(list, r)) == want, 'the prime factors %r' % (f,))


def largest_prime_to(a, b):
    while nt.gcd(a, b) > 1:
        a //= nt.gcd(a, b)
    return a


def built(rng, hard):
    """ a number with known factors: the second largest prime stays searchable """
    edge = [1201, 1213, 1217, 1223, 1229, 1231, 1237, 1249, 1259, 1277, 1279]
    f = {}
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(5)
        q = (rng.choice((2, 3, 5, 7, 11, 13)) if k == 0 else rng.choice(edge) if k == 1 else
             nt.next_prime(rng.randrange(2, 1229)) if k == 2 else nt.next_prime(rng.randrange(1230, 20000 if hard else 6000)) if k == 3 else
             nt.next_prime(rng.randrange(2, 60)))
        f[q] = f.get(q, 0) + rng.choice((1, 1, 1, 2, 2, 3, 5 if q < 50 else 1))
    if rng.randrange(3) == 0:
        # after a factor above the table only trial division is left
        sizes = (20, 30, 31, 32, 34) if max(f) > 1229 else (20, 30, 31, 32, 40, 62, 64, 90, 128)
        q = nt.next_prime(rng.getrandbits(rng.choice(sizes)) + 1300)
        f[q] = 1
    return sorted(f.items())


def value(f):
    return reduce(lambda a, b: a * b, (q ** e for q, e in f), 1)


def phi_of(f):
    return value([]) if not f else reduce(lambda a, b: a * b, ((q - 1) * q ** (e - 1) for q, e in f), 1)


def car_of(f):
    return reduce(nt.lcm, (2 ** (e - 2) if q == 2 and e > 2 else (q - 1) * q ** (e - 1) for q, e in f), 1)


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    top = 3000 if not big else 30000
    for lo in range(1, top, 150):
        p = Prog('small arguments')
        for n in range(lo, lo + 150):
            f = nt.factor(n)
            p.call(N + 'factorization', n, expect=ordered(f))
            p.call(N + 'phi', n, expect=eq(phi_of(f)))
            p.call(N + 'carmichael', n, expect=eq(car_of(f)))
        out.append(p)
    p = Prog('edges')
    for n in (1, 0, -1, -12):
        p.call(N + 'factorization', n, expect=eq([]))
    for bad in (b'15', None, [15]):
        p.call(N + 'factorization', bad, expect=refused)
    p.call(N + 'phi', 1, expect=eq(1))
    p.call(N + 'phi', 2, expect=eq(1))
    for m in (1, 0, -3):
        p.call(N + 'order_mod', 5, m, expect=eq(0))
    out.append(p)
    # the squares and products of primes around and above the table
    edge = [q for q in range(1181, 1400) if nt.is_prime(q)]
    p = Prog('factors at the end of the small prime table', cost=2)
    for i, q in enumerate(edge):
        for f in ([(q, 1)], [(q, 2)], [(q, 3)], [(q, 1), (edge[(i + 1) % len(edge)], 1)], [(2, 1), (q, 2)],
                  [(q, 2), (edge[(i + 3) % len(edge)], 2)]):
            f = sorted(f)
            n = value(f)
            p.call(N + 'factorization', n, expect=ordered(f))
            p.call(N + 'phi', n, expect=eq(phi_of(f)))
            p.call(N + 'carmichael', n, expect=eq(car_of(f)))
    out.append(p)
    for _ in range(40 if not big else 400):
        p = Prog('built from prime powers', cost=1.5)
        for _ in range(12):
            f = built(rng, big)
            n = value(f)
            p.call(N + 'factorization', rng.choice((n, L(n))), expect=ordered(f))
            p.call(N + 'phi', n, expect=eq(phi_of(f)))
            p.call(N + 'carmichael', n, expect=eq(car_of(f)))
            g = list(f)
            rng.shuffle(g)
            p.call(N + 'carmichael_of_factorized', [tuple(x) for x in g], expect=eq(car_of(f)))
            p.call(N + 'carmichael_of_ppower', f[0], expect=eq(car_of(f[:1])))
        p.call(N + 'carmichael_of_factorized', [], expect=eq(1))
        for e in range(1, 12):
            p.call(N + 'carmichael_of_ppower', (2, e), expect=eq(car_of([(2, e)])))
        out.append(p)
    for q in [nt.next_prime(1 << b) for b in (31, 32, 61, 63, 64, 127, 200)] + [2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1]:
        p = Prog('large primes')
        for f in ([(q, 1)], [(2, 3), (q, 1)], [(3, 2), (41, 1), (q, 1)], [(1229, 1), (q, 1)]):
            n = value(f)
            p.call(N + 'factorization', n, expect=ordered(f))
            p.call(N + 'phi', n, expect=eq(phi_of(f)))
            p.call(N + 'carmichael', n, expect=eq(car_of(f)))
        out.append(p)
    # prime powers of any size, alone and together
    for _ in range(8 if not big else 80):
        p = Prog('high prime powers', cost=1.5)
        for _ in range(8):
            f = {}
            for _ in range(rng.randrange(1, 4)):
                q = rng.choice((2, 2, 3, 5, 7, 13, 31, 257, 1229, 1231, 1237, nt.next_prime(rng.randrange(3, 1200))))
                f[q] = rng.choice((rng.randrange(1, 8), rng.randrange(1, 40), rng.randrange(30, 130)))
            f = sorted(f.items())
            n = value(f)
            p.call(N + 'factorization', n, expect=ordered(f))
            p.call(N + 'phi', n, expect=eq(phi_of(f)))
            p.call(N + 'carmichael', n, expect=eq(car_of(f)))
            p.call(N + 'carmichael_of_factorized', [tuple(x) for x in f], expect=eq(car_of(f)))
            q = nt.next_prime(rng.getrandbits(rng.choice((8, 31, 64, 128))) + 2)
            e = rng.choice((1, 2, 3, 9, 40))
            p.call(N + 'carmichael_of_ppower', (q, e), expect=eq(car_of([(q, e)])))
        for e in (30, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 200):
            p.call(N + 'phi', 2 ** e, expect=eq(2 ** (e - 1)))
            p.call(N + 'carmichael_of_ppower', (2, e), expect=eq(2 ** (e - 2)))
        out.append(p)
    # gcd, lcm
    for _ in range(40 if not big else 400):
        p = Prog('gcd and lcm of any number of arguments')
        for _ in range(12):
            k = rng.choice((1, 2, 2, 3, 4, 5, 7, 12))
            g = rng.choice((1, 2, 6, 97, 2 ** 40, rng.getrandbits(80) + 1))
            xs = [g * rng.choice((rng.getrandbits(rng.choice((4, 8, 16, 31, 32, 33, 64, 200))) + 1, rng.choice((1, 2, 4, 6, 12, 30)))) for _ in range(k)]
            if rng.randrange(4) == 0:
                xs[rng.randrange(k)] = xs[0]
            zs = list(xs)
            if rng.randrange(4) == 0:
                zs[rng.randrange(k)] = 0
            want = reduce(math.gcd, zs)
            p.call(N + 'gcd', *zs, expect=eq(want))
            p.call(N + 'gcd', zs, expect=eq(want))
            p.call(N + 'gcd', tuple(zs), expect=eq(want))
            if rng.randrange(8) == 0:
                xs[rng.randrange(k)] = 0
            want = reduce(nt.lcm, xs) if all(xs) else 0
            p.call(N + 'lcm', *xs, expect=eq(want))
            p.call(N + 'lcm', xs, expect=eq(want))
            p.call(N + 'lcm', tuple(xs), expect=eq(want))
            a, b = xs[0], rng.choice(xs)
            p.call(N + 'gcd2', a, b, expect=eq(math.gcd(a, b)))
            p.call(N + 'lcm2', a, b, expect=eq(nt.lcm(a, b) if a and b else 0))
        out.append(p)
    for n in (11, 16, 33, 64, 100, 257) + ((1000, 5000) if big else ()):
        # long lists in which each of a few places decides
        p = Prog('gcd and lcm of long lists')
        for at in sorted({0, 1, n // 2, n - 2, n - 1, rng.randrange(n)}):
            g = rng.choice((6, 2 ** 33, rng.getrandbits(70) + 2))
            xs = [g * rng.choice((1, 2, 3, 4, 6, 12)) for _ in range(n)]
            want, m = reduce(math.gcd, xs), reduce(nt.lcm, xs)
            p.call(N + 'gcd', xs, expect=eq(want))
            ys = list(xs)
            ys[at] = g * 101 + 1
            zs = list(xs)
            zs[at] = g * 101
            p.call(N + 'gcd', tuple(ys), expect=eq(reduce(math.gcd, ys)))
            p.call(N + 'gcd', *ys, expect=eq(reduce(math.gcd, ys)))
            p.call(N + 'lcm', zs, expect=eq(reduce(nt.lcm, zs)))
            p.call(N + 'lcm', *zs, expect=eq(reduce(nt.lcm, zs)))
        out.append(p)
    p = Prog('gcd and lcm, all small pairs')
    for a in range(0, 40):
        for b in range(0, 40):
            p.call(N + 'gcd', a, b, expect=eq(math.gcd(a, b)))
            p.call(N + 'lcm', a, b, expect=eq(nt.lcm(a, b) if a and b else 0))
            p.call(N + 'lcm2', a, b, expect=eq(nt.lcm(a, b) if a and b else 0))
            if a < 4 and b < 6:
                for c in (0, 1, 6):
                    zs = [a, b, c]
                    p.call(N + 'gcd', *zs, expect=eq(reduce(math.gcd, zs)))
                    p.call(N + 'lcm', zs, expect=eq(reduce(nt.lcm, zs) if all(zs) else 0))
    for z in ([0], [5], [0, 0, 0, 0], (0,), (7,)):
        p.call(N + 'gcd', z, expect=eq(z[0]))
        p.call(N + 'lcm', z, expect=eq(z[0]))
    p.call(N + 'gcd', 0, expect=eq(0))
    p.call(N + 'lcm', 0, expect=eq(0))
    out.append(p)
    # orders
    for lo in range(2, 90 if not big else 300, 4):
        p = Prog('orders, all small pairs')
        for m in range(lo, lo + 4):
            for x in range(-2, m + 3):
                orders(p, x, m)
        out.append(p)
    for _ in range(25 if not big else 200):
        p = Prog('orders')
        for _ in range(10):
            m = rng.randrange(2, 6000)
            x = rng.choice((rng.randrange(m), rng.randrange(m, 10 * m), -rng.randrange(1, m), m - 1, m + 1, 1, rng.getrandbits(100)))
            orders(p, x, m)
        out.append(p)
    p = Prog('high orders', cost=6)
    for m in [nt.next_prime(rng.randrange(30000, 60000)), nt.next_prime(rng.randrange(65536, 150000)), nt.next_prime(rng.randrange(2 ** 18, 2 ** 19)),
              2 ** 17, 3 ** 10, 257 ** 2, 65537]:
        for x in (2, 3, m - 2, rng.randrange(2, m), m - 1):
            if nt.gcd(x, m) == 1:
                orders(p, x, m)
    out.append(p)
    # moduli whose group has a smooth order, and elements of every kind of order in it
    small = [2, 2, 2, 2, 3, 3, 3, 5, 5, 7, 11, 13]
    for _ in range(5 if not big else 40):
        p = Prog('orders in a group of smooth order', cost=4)
        for bits in (13, 16, 18, 19):
            while True:
                m = value([(rng.choice(small), 1) for _ in range(14)][:rng.randrange(5, 14)]) + 1
                if m.bit_length() == bits and nt.is_prime(m):
                    break
            if rng.randrange(4) == 0:
                m = rng.choice((2 * m, 3 ** 9, 5 ** 6, 7 ** 5, 13 ** 4, 2 ** bits, 101 ** 2 * 2))
            f = nt.factor(car_of(nt.factor(m)))
            while True:
                g = rng.randrange(2, m)
                if nt.gcd(g, m) == 1:
                    break
            ds = [1, 2, f[-1][0], f[0][0] ** f[0][1], value([(q, e - 1) for q, e in f])]
            ds += [value([(q, rng.randrange(e + 1)) for q, e in f]) for _ in range(5)]
            for d in ds:
                orders(p, pow(g, d, m), m)
        out.append(p)
    p = Prog('largest relatively prime factor, one prime after the other')
    for k in range(1, 16):
        qs = rng.sample([q for q in range(2, 100) if nt.is_prime(q)], k)
        for a in (value([(q, i + 1) for i, q in enumerate(qs)]), value([(q, 2 ** i) for i, q in enumerate(qs[:9])])):
            for b in (value([(q, 1) for q in qs]), value([(q, 3) for q in qs]), value([(q, i + 1) for i, q in enumerate(qs[::-1])])):
                p.call(N + 'largest_factor_relatively_prime', a, b, expect=eq(largest_prime_to(a, b)))
                p.call(N + 'largest_factor_relatively_prime', a * 101, b, expect=eq(101 * largest_prime_to(a, b)))
    out.append(p)
    for _ in range(25 if not big else 200):
        p = Prog('largest relatively prime factor')
        for _ in range(20):
            f = built(rng, False)
            a = value(f)
            b = value([(q, rng.randrange(1, 4)) for q, e in f if rng.randrange(2)]) * rng.choice((1, 1, 17, 30, 1009))
            if rng.randrange(6) == 0:
                b = rng.choice((1, a, 0))
            p.call(N + 'largest_factor_relatively_prime', a, b, expect=eq(largest_prime_to(a, b)))
        out.append(p)
    # the caller's own list, changed between calls; results changed by the caller; the same questions again
    for _ in range(25 if not big else 200):
        p = Prog('lists changed by the caller', cost=1.5)
        xs = [rng.getrandbits(rng.choice((4, 8, 31, 40))) + 1 for _ in range(rng.randrange(2, 6))]
        p.op('list', xs, d='l', q=1)
        for _ in range(8):
            p.call(N + 'gcd', V('l'), expect=eq(reduce(math.gcd, xs)))
            p.call(N + 'lcm', V('l'), expect=eq(reduce(nt.lcm, xs)))
            i, x = rng.randrange(len(xs)), rng.choice((1, 2, 6, 30, rng.getrandbits(33) + 1))
            p.op('setitem', V('l'), i, x, mut=True, q=1)
            xs[i] = x
        f = built(rng, False)
        p.op('list', [tuple(x) for x in f], d='f', q=1)
        for _ in range(4):
            p.call(N + 'carmichael_of_factorized', V('f'), expect=eq(car_of(f)))
            i = rng.randrange(len(f))
            f = list(f)
            f[i] = (f[i][0], f[i][1] + 1)
            p.op('setitem', V('f'), i, f[i], mut=True, q=1)
        ns = [value(built(rng, False)) for _ in range(3)] + [rng.randrange(2, 2000) for _ in range(4)]
        for n in ns + ns + ns[::-1]:
            fs = nt.factor(n)
            p.call(N + 'factorization', n, d='r', expect=ordered(fs))
            k = rng.randrange(3)
            if fs and k == 0:
                p.op('pop', V('r'), mut=True, q=1, expect=None)
            elif k == 1:
                p.op('append', V('r'), (2, 9), mut=True, q=1, expect=None)
            elif fs:
                p.op('setitem', V('r'), 0, (3, 1), mut=True, q=1, expect=None)
            for fn, want in (('phi', phi_of(fs)), ('carmichael', car_of(fs))):
                p.call(N + fn, n, expect=eq(want))
            m = n % 997 + 2
            orders(p, n % 31 + 2, m)
            orders(p, n % 31 + 2, m + 1)
        out.append(p)
    for _ in range(6 if not big else 60):
        p = Prog('numbers nearly alike', cost=1.5)
        f = built(rng, False)
        n = value(f)
        k = rng.getrandbits(rng.choice((40, 70, 130))) + 1
        ns = [n, k] + [gen.alike(rng, v, 1 << 200) for v in (n, k) for _ in 'abc']
        todo = [(rng.choice(ns), rng.choice(ns)) for _ in range(40)]
        for a, b in todo:
            g = math.gcd(a, b)
            p.call(N + 'gcd', a, b, expect=eq(g))
            p.call(N + 'gcd', [b, a], expect=eq(g))
            p.call(N + 'lcm', a, b, expect=eq(a * b // g if g else 0))
            if a and b:
                p.call(N + 'largest_factor_relatively_prime', a, b, expect=eq(largest_prime_to(a, b)))
        m, x = rng.randrange(3, 3000), rng.randrange(1, 3000)
        for x in [x] + [gen.alike(rng, x, 1 << 140) for _ in range(4)]:
            orders(p, x, m)
        out.append(p)
    # sizes between the exhaustive range and the table's end, each asked twice
    for _ in range(15 if not big else 150):
        p = Prog('plain numbers', cost=1.5)
        ns = [rng.randrange(1 << rng.choice((12, 16, 20, 24))) + 1 for _ in range(15)]
        for n in ns + ns[:5]:
            fs = nt.factor(n)
            p.call(N + 'factorization', n, expect=ordered(fs))
            p.call(N + 'phi', n, expect=eq(phi_of(fs)))
            p.call(N + 'carmichael', n, expect=eq(car_of(fs)))
        out.append(p)
    return [('main', out, {})]


def orders(p, x, m):
    if nt.gcd(x, m) == 1:
        p.call(N + 'order_mod', x, m, expect=eq(nt.order(x, m)))
    else:
        p.call(N + 'order_mod', x, m, expect=refused)
    if x > 0:
        f = largest_prime_to(m, x)
        p.call(N + 'kinda_order_mod', x, m, expect=eq(nt.order(x, f) if f > 1 else 0))
