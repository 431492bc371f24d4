from ..prog import Prog, V, eq, pred, refused
from ..oracle import nt

RULE = ('one history = one prime p and one monic modulus polynomial, and a run of polynomial_reduce_mod, polynomial_multiply_mod and '
        'polynomial_exp_mod calls under it; the recorded result must be congruent to the product, power or argument and of lower degree '
        'than the modulus, and lists passed in must come back unchanged. Small primes with all exponents, primes to 521 bits, modulus '
        'degrees 1 to 24. Non-trivial: every history')
N = 'cryptopy.ecc.numbertheory:'


def cong(want, f, p, reduced=True):
    d = len(f) - 1

    def good(r):
        return (isinstance(r, list) and all(isinstance(c, int) for c in r) and len(nt.trim([c % p for c in r])) <= d
                and nt.pmod(r, f, p) == want)
    return pred(good, 'a polynomial of degree below %d that is congruent to %r' % (d, want))


def poly(rng, p, n):
    k = rng.randrange(6)
    if k == 0:
        return [0] * n
    if k == 1:
        return [p - 1] * n
    if k == 2:
        return [rng.randrange(p) if rng.randrange(3) == 0 else 0 for _ in range(n)]
    return [rng.randrange(p) for _ in range(n)]


def seq(rng, l):
    return tuple(l) if rng.randrange(3) == 0 else list(l)


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    small = [2, 3, 5, 7, 11, 13, 17, 31, 97, 257]
    large = [nt.next_prime(rng.getrandbits(b) | 1 << b - 1) for b in (16, 31, 32, 33, 64, 128, 256)] + [2 ** 255 - 19, 2 ** 521 - 1]
    for _ in range(120 if not big else 1500):
        q = rng.choice(small) if rng.randrange(2) else rng.choice(large)
        d = rng.choice((1, 2, 2, 2, 3, 4, 5, 8, rng.choice((9, 12, 17, 24))))
        f = poly(rng, q, d) + [1]
        if rng.randrange(4) == 0:       # coefficients below zero, as the square root passes them
            f = [c - q if rng.randrange(2) else c for c in f[:-1]] + [1]
        p = Prog('random polynomials', cost=1 + d * q.bit_length() / 200.)
        for _ in range(8):
            g = poly(rng, q, rng.choice((1, 1, 2, d, d + 1, d + 2, 2 * d, 3 * d + 2)))
            p.call(N + 'polynomial_reduce_mod', list(g), seq(rng, f), q, expect=cong(nt.pmod(g, f, q), f, q))
            a, b = (poly(rng, q, rng.randrange(1, d + (3 if rng.randrange(3) == 0 else 1))) for _ in 'ab')
            p.call(N + 'polynomial_multiply_mod', seq(rng, a), seq(rng, b), seq(rng, f), q, expect=cong(nt.pmul(a, b, f, q), f, q))
            base = poly(rng, q, rng.randrange(1, d + (d + 3 if rng.randrange(3) == 0 else 1)))
            e = rng.choice((0, 1, 2, 3, q - 1, q - 2, q // 2, (q + 1) // 2, rng.randrange(q), rng.randrange(q)))
            if 0 <= e < q:
                p.call(N + 'polynomial_exp_mod', seq(rng, base), e, seq(rng, f), q, expect=cong(nt.ppow(base, e, f, q), f, q))
            p.call(N + 'polynomial_exp_mod', seq(rng, base), q, seq(rng, f), q, expect=eq_or(nt.ppow(base, q, f, q), f, q))
        bad = f[:-1] + [2 % q] if q > 2 else f[:-1] + [0]
        p.call(N + 'polynomial_reduce_mod', [1, 2, 3], bad, q, expect=refused)
        p.call(N + 'polynomial_reduce_mod', [1, 2, 3], [1], q, expect=refused)
        out.append(p)
    for q in (3, 5, 7, 11, 13) + ((17, 19, 23) if big else ()):
        for d in (1, 2, 3):
            p = Prog('all exponents')
            for _ in range(3):
                f = poly(rng, q, d) + [1]
                base = poly(rng, q, rng.randrange(1, 2 * d + 2))
                for e in range(q):
                    p.call(N + 'polynomial_exp_mod', base, e, f, q, expect=cong(nt.ppow(base, e, f, q), f, q))
            out.append(p)
    # one prime with several moduli, one modulus with several primes; lists the caller changes and uses again
    for _ in range(20 if not big else 150):
        p = Prog('several moduli by turns', cost=2)
        d = rng.randrange(1, 4)
        qs = [rng.choice(small), rng.choice(small), rng.choice(large)]
        lo = min(qs)
        fs = [[rng.randrange(lo) for _ in range(d)] + [1] for _ in range(2)] + [[rng.randrange(lo) for _ in range(d + 1)] + [1]]
        a, b = [[rng.randrange(lo) for _ in range(d)] for _ in 'ab']
        g = [rng.randrange(lo) for _ in range(2 * d + 2)]
        e = rng.randrange(lo)
        todo = [(q, f) for q in qs for f in fs] * 2
        rng.shuffle(todo)
        for q, f in todo:
            p.call(N + 'polynomial_reduce_mod', list(g), f, q, expect=cong(nt.pmod(g, f, q), f, q))
            p.call(N + 'polynomial_multiply_mod', a, b, f, q, expect=cong(nt.pmul(a, b, f, q), f, q))
            p.call(N + 'polynomial_exp_mod', a, e, f, q, expect=cong(nt.ppow(a, e, f, q), f, q))
        p.op('list', a, d='a', q=1)
        p.op('list', fs[0], d='f', q=1)
        f, q = list(fs[0]), qs[0]
        a = list(a)
        for _ in range(8):
            p.call(N + 'polynomial_multiply_mod', V('a'), V('a'), V('f'), q, d='r', expect=cong(nt.pmul(a, a, f, q), f, q))
            p.call(N + 'polynomial_exp_mod', V('a'), e, V('f'), q, d='s', expect=cong(nt.ppow(a, e, f, q), f, q))
            p.call(N + 'polynomial_reduce_mod', V('a'), V('f'), q, d='t', expect=cong(nt.pmod(a, f, q), f, q))
            p.op('append', V(rng.choice('rst')), 1, mut=True, q=1, expect=None)
            p.op('list', a, d='a', q=1)         # a result may be the list that was passed
            i, c = rng.randrange(d), rng.randrange(lo)
            if rng.randrange(2):
                p.op('setitem', V('f'), i, c, mut=True, q=1)
                f[i] = c
            p.op('setitem', V('a'), i, c, mut=True, q=1)
            a[i] = c
        out.append(p)
    p = Prog('all products of linear polynomials')
    q = 3
    for f0 in range(q):
        for f1 in range(q):
            f = [f0, f1, 1]
            for n in range(q ** 4):
                a, b = [n % 3, n // 3 % 3], [n // 9 % 3, n // 27]
                p.call(N + 'polynomial_multiply_mod', a, b, f, q, expect=cong(nt.pmul(a, b, f, q), f, q))
    out.append(p)
    return [('main', out, {})]


def eq_or(want, f, p):
    c = cong(want, f, p)
    return lambda ev: None if 'x' in ev else c(ev)
