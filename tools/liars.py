#!/usr/bin/env python3
""" prints mon/oracle/liars.py: composites that are strong pseudoprimes to the
    first r-1 primes and not to the r-th (Arnault's construction: p, k(p-1)+1 and
    l(p-1)+1 with equal Legendre symbols for every base that is to be fooled) """
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon.oracle import nt

PR = [q for q in range(2, 1000) if nt.is_prime(q)]
PRODUCT = 1
for q in PR[15:]:
    PRODUCT *= q


def find(rng, bits, r, fooled=None):
    """ fooled: the first r-1 primes; the r-th is a witness """
    from math import gcd
    while True:
        k, l = rng.sample([5, 13, 17, 29, 37, 41], 2)
        need = bits - (k * l).bit_length() + 1
        pb = (need + 2) // 3
        res = {8: [3]}       # p mod 8: 2 is no residue of any of the three
        bases = PR[:r]
        for q in PR[1:max(15, r)]:
            good, other = [], []
            for x in range(q):
                ps = [x, (k * (x - 1) + 1) % q, (l * (x - 1) + 1) % q]
                if q not in (k, l) and 0 in ps:
                    continue
                if q == k and (x - 1) * l % q != -(1 + l) % q:
                    continue
                if q == l and (x - 1) * k % q != -(1 + k) % q:
                    continue
                if 0 in ps:
                    continue
                # p = 3 mod 4, so (q/p) = (p/q) * (-1)^((q-1)/2), the same sign for all three
                js = {nt.jacobi(v, q) for v in ps}
                (good if len(js) == 1 else other).append(x)
            if q in bases[:-1]:
                c = good
            elif q == bases[-1]:
                c = other
            else:
                c = good + other
            res[q] = c
        for q in (k, l):
            if q not in res:
                res[q] = [x for x in range(1, q) if ((x - 1) * l % q == -(1 + l) % q if q == k else (x - 1) * k % q == -(1 + k) % q)]
        if not all(res.values()):
            continue
        # the moduli that matter first, others as far as they fit below p
        order = [8, k, l] + [q for q in bases[1:] if q not in (k, l)] + [q for q in res if q not in (8, k, l) and q not in bases]
        for tries in range(300):
            m, v, rest = 1, 0, []
            for q in order:
                if (m * q).bit_length() > pb - 12:
                    rest.append(q)
                    continue
                x = rng.choice(res[q])
                v += m * ((x - v) * pow(m, -1, q) % q)
                m *= q
            if any(q in (8, k, l) for q in rest) or len([q for q in rest if q in bases]) > 5:
                break
            for _ in range(2000):
                p = v + m * rng.randrange((1 << pb - 1) // m, (1 << pb) // m + 1)
                if any(p % q not in res[q] for q in rest):
                    continue
                a, b = k * (p - 1) + 1, l * (p - 1) + 1
                n = p * a * b
                if n.bit_length() != bits or p < 1300 or gcd(n, PRODUCT) > 1:
                    continue
                if nt.is_prime(p) and nt.is_prime(a) and nt.is_prime(b):
                    assert all(nt.strong_probable_prime(n, q) for q in bases[:-1])
                    assert not nt.strong_probable_prime(n, bases[-1])
                    return n


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    rng = random.Random(20)
    rounds = ((200, 15), (250, 12), (300, 9), (350, 8), (400, 7), (450, 6), (550, 5), (650, 4), (850, 3), (1300, 2))
    print('""" (bits, r, n): n is composite, a strong pseudoprime to the first r-1 primes and not to the r-th; made by tools/liars.py """')
    print('LIARS = [')
    for i, (lo, r) in enumerate(rounds):
        hi = rounds[i + 1][0] if i + 1 < len(rounds) else 1500
        for bits in (lo + 3, (lo + hi) // 2, hi - 5, hi - 3):
            print('    (%d, %d, %d),' % (bits, r, find(rng, bits, r)), flush=True)
    # fewer bases fooled, and sizes below
    for bits, r in ((70, 3), (80, 4), (90, 5), (100, 4), (105, 5), (110, 5), (120, 6), (130, 6), (140, 7), (150, 7), (160, 8), (170, 8), (180, 9), (190, 10), (195, 10), (260, 5), (330, 3)):
        print('    (%d, %d, %d),' % (bits, r, find(rng, bits, r)), flush=True)
    for (lo, r), (hi, _) in zip(rounds, rounds[1:]):
        print('    (%d, %d, %d),' % (hi - 1, r, find(rng, hi - 1, r)), flush=True)
    print(']')
