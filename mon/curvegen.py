""" User-defined curves for the curve properties """
from math import isqrt
from .oracle import ec, nt
from . import gen

BASE = {'w': 'cryptopy.ecc.ecc:SmallWeierstrassCurveFp', 'k': 'cryptopy.ecc.ecc:KoblitzCurveFp',
        'm': 'cryptopy.ecc.ecc:MontgomeryCurveFp', 'e': 'cryptopy.ecc.ecc:TwistedEdwardsCurveFp',
        'd': 'cryptopy.ecc.ecc:EdwardsCurveFp'}
SMALL = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]


def params(C, kind, G, n, h):
    d = {'p': C.p, 'xG': G[0], 'yG': G[1], 'n': n, 'h': h, 'curveId': 'user', 'strength': 1, 'oid': None}
    if kind in 'wme':
        d['a'] = C.a
    if kind in 'wk':
        d['b'] = C.b
    if kind in 'ed':
        d['d'] = C.d
    return d


def oracle(rng, kind, p):
    while True:
        a, b = rng.randrange(p), rng.randrange(p)
        if rng.randrange(3) == 0:       # coefficients that implementations treat apart
            a = rng.choice((0, 1, p - 1, p - 3, 2, p - 2, 3, 4 % p)) % p
        if rng.randrange(4) == 0:
            b = rng.choice((0, 1, p - 1, 2))
        if kind == 'k':
            a = 0
        if kind == 'd':
            a = 1
        if kind in 'wk':
            if (4 * a ** 3 + 27 * b * b) % p == 0:
                continue
            return ec.Weierstrass(p, a, b)
        if kind == 'm':
            if (a * a - 4) % p == 0:
                continue
            return ec.Montgomery(p, a)
        if a == 0 or nt.jacobi(a, p) != 1 or b == 0 or nt.jacobi(b, p) != -1:
            continue
        return ec.Edwards(p, a, b)


def order_of(C, P):
    k, R = 1, P
    while R != C.O:
        k, R = k + 1, C.add(R, P)
    return k


def small(rng, kind, p):
    """ (oracle, params, all points); G generates a subgroup of prime order when there is one """
    if p == 3 and kind == 'k':
        p = 7               # y^2 = x^3 + b is singular over GF(3)
    while True:
        C = oracle(rng, kind, p)
        pts = C.points()
        N = len(pts)
        best = None
        for P in pts:
            if P == C.O:
                continue
            n = order_of(C, P)
            if nt.is_prime(n) and (best is None or n > best[1]):
                best = (P, n)
        if best is None:
            continue
        return C, params(C, kind, best[0], best[1], N // best[1]), pts


def medium(rng, kind, p, count):
    """ (oracle, params, points) over a larger prime; n is left at a nominal value """
    C = oracle(rng, kind, p)
    pts = []
    while len(pts) < count:
        if kind in 'ed':
            y = rng.randrange(p)
            den = (C.a - C.d * y * y) % p
            x = ec.sqrt_mod((1 - y * y) * ec.inv(den, p), p) if den else None
            if x is not None:
                pts.append((rng.choice((x, -x % p)), y))
        else:
            x = rng.randrange(p)
            f = x ** 3 + C.a * x + C.b if kind in 'wk' else x ** 3 + C.a * x * x + x
            y = ec.sqrt_mod(f % p, p)
            if y is not None:
                pts.append((x, rng.choice((y, -y % p))))
    assert all(C.on(P) for P in pts)
    return C, params(C, kind, pts[0], nt.prev_prime(p), 1), pts


MEDIUM = [2 ** 16 + 1, 65521, 2 ** 31 - 1, 2147483629, 2147483659, 4294967291, 4294967311, 2 ** 61 - 1, 9223372036854775783,
          9223372036854775837, 18446744073709551557, 18446744073709551629, 2 ** 89 - 1, 2 ** 127 - 1]


def point(p, d, P, curve='E'):
    """ step that makes the point P, or the identity """
    if P is None:
        return p.call('.identity', o=curve, d=d, q=1)
    return p.call('.point', P[0], P[1], o=curve, d=d, q=1)


def sibling(rng, kind, C, P):
    """ another curve of the kind over the same field, through the same point when the kind allows it """
    p = C.p
    x, y = P
    for _ in range(400):
        if kind == 'w':
            a = rng.choice((0, 1, p - 3, rng.randrange(p), rng.randrange(p)))
            b = (y * y - x ** 3 - a * x) % p
            if a == C.a or (4 * a ** 3 + 27 * b * b) % p == 0:
                continue
            return ec.Weierstrass(p, a, b)
        if kind == 'e' and x * y % p:
            a = rng.randrange(1, p)
            d = (a * x * x + y * y - 1) * ec.inv(x * x * y * y, p) % p
            if a == C.a or nt.jacobi(a, p) != 1 or d == 0 or nt.jacobi(d, p) != -1:
                continue
            return ec.Edwards(p, a, d)
        D = oracle(rng, kind, p)
        if (D.a, getattr(D, 'b', 0), getattr(D, 'd', 0)) != (C.a, getattr(C, 'b', 0), getattr(C, 'd', 0)):
            return D
    return None


def a_point(rng, kind, C, x=None):
    """ a point of C, with the given x (y for Edwards curves) if there is one """
    p = C.p
    for i in range(200):
        v = x if x is not None and i == 0 else rng.randrange(p)
        if kind in 'ed':
            den = (C.a - C.d * v * v) % p
            u = ec.sqrt_mod((1 - v * v) * ec.inv(den, p), p) if den else None
            if u is not None and (u, v) != (0, 1):
                return u, v
        else:
            f = v ** 3 + C.a * v + C.b if kind in 'wk' else v ** 3 + C.a * v * v + v
            y = ec.sqrt_mod(f % p, p)
            if y is not None:
                return v, y
    return None


def family(rng, kind, prime, count, inst=None):
    """ curves of one kind over one field with a point each, of shared coordinates where possible:
        [(oracle, params, point)] """
    while True:
        C = oracle(rng, kind, prime)
        P = a_point(rng, kind, C)
        if P is None:
            continue
        out = [(C, P)]
        for _ in range(count * 4):
            if len(out) == count:
                break
            D = sibling(rng, kind, C, P)
            if D is None or any((D.a, getattr(D, 'b', 0), getattr(D, 'd', 0)) == (E.a, getattr(E, 'b', 0), getattr(E, 'd', 0)) for E, _ in out):
                continue
            Q = P if D.on(P) else a_point(rng, kind, D, P[1] if kind in 'ed' else P[0])
            if Q is not None:
                out.append((D, Q))
        if len(out) > 1:
            return [(D, params(D, kind, Q, nt.prev_prime(prime) if prime > 3 else 3, 1), Q) for D, Q in out]


def near_pair(rng, kind, p):
    """ (oracle, params, two points whose coordinates are nearly alike) """
    while True:
        u1 = rng.randrange(p)
        u2 = gen.alike(rng, u1, p)
        if kind in 'we':
            v1 = rng.randrange(p)
            v2 = rng.choice((v1, gen.alike(rng, v1, p), gen.alike(rng, v1, p), p - gen.alike(rng, v1, p), rng.randrange(p)))
            P, Q = ((u1, v1), (u2, v2)) if rng.randrange(2) else ((v1, u1), (v2, u2))
            (x1, y1), (x2, y2) = P, Q
            if kind == 'w':
                if x1 == x2:
                    continue
                a = (y2 * y2 - y1 * y1 - x2 ** 3 + x1 ** 3) * ec.inv((x2 - x1) % p, p) % p
                b = (y1 * y1 - x1 ** 3 - a * x1) % p
                if (4 * a ** 3 + 27 * b * b) % p == 0:
                    continue
                C = ec.Weierstrass(p, a, b)
            else:
                # a*x^2 - d*x^2*y^2 == 1 - y^2 for both
                s1, s2, t1, t2 = x1 * x1 % p, x2 * x2 % p, y1 * y1 % p, y2 * y2 % p
                det = s1 * s2 * (t1 - t2) % p
                if det == 0:
                    continue
                d = ((1 - t2) * s1 - (1 - t1) * s2) * ec.inv(det, p) % p
                a = ((1 - t1) * ec.inv(s1, p) + d * t1) % p
                if a == 0 or d == 0 or nt.jacobi(a, p) != 1 or nt.jacobi(d, p) != -1:
                    continue
                C = ec.Edwards(p, a, d)
        else:
            C = oracle(rng, kind, p)
            P, Q = a_point(rng, kind, C, u1), a_point(rng, kind, C, u2)
            w = 1 if kind == 'd' else 0
            if P is None or Q is None or (P[w], Q[w]) != (u1, u2):
                continue
        if P != Q and C.on(P) and C.on(Q) and C.O not in (P, Q):
            return C, params(C, kind, P, nt.prev_prime(p), 1), [P, Q]


def special(rng, p):
    """ a number below p of a form that shortcuts and overflows depend on """
    b = p.bit_length()
    k = rng.randrange(b)
    n = rng.choice((1 << k, rng.getrandbits(b) >> k << k, (1 << k) - 1, rng.getrandbits(k + 1), p - (1 << k), p - 1, p - 2, 1, 2, 3, 0,
                    (p + 1) // 2, (p - 1) // 2, p // 3, rng.getrandbits(32) << 32, (1 << b // 2) - 1, p >> b // 2 << b // 2,
                    rng.getrandbits(b) & ~(0xffffffff << rng.choice((0, 32, 64))), rng.randrange(p)))
    return n * ec.inv(rng.choice((1, 1, 1, 2, 2, 3, 4)) % p, p) % p


def chosen_point(rng, kind, p):
    """ (oracle, params, a point with coordinates of a special form) """
    while True:
        x, y = special(rng, p), special(rng, p)
        if kind in 'wk':
            a = 0 if kind == 'k' else special(rng, p)
            b = (y * y - x ** 3 - a * x) % p
            if (4 * a ** 3 + 27 * b * b) % p == 0:
                continue
            C = ec.Weierstrass(p, a, b)
        elif kind == 'm':
            if x == 0:
                continue
            a = (y * y - x ** 3 - x) * ec.inv(x * x % p, p) % p
            if (a * a - 4) % p == 0:
                continue
            C = ec.Montgomery(p, a)
        else:
            a = 1 if kind == 'd' else rng.choice((1, p - 1, 4 % p, special(rng, p)))
            if x * y % p == 0 or a == 0 or nt.jacobi(a, p) != 1:
                continue
            d = (a * x * x + y * y - 1) * ec.inv(x * x * y * y % p, p) % p
            if d == 0 or nt.jacobi(d, p) != -1:
                continue
            C = ec.Edwards(p, a, d)
        if C.on((x, y)) and (x, y) != C.O:
            return C, params(C, kind, (x, y), nt.prev_prime(p), 1), (x, y)


def same_numbers(rng, kind, primes):
    """ curves with the same coefficients and, but for kind d, the same point over several fields: [(oracle, params, point)] """
    tries = 0
    while True:
        tries += 1
        if tries % 1500 == 0 and len(primes) > 2:
            primes = primes[:-1]
        top = 60 + tries // 20
        x, y = rng.randrange(6), rng.randrange(2, top)
        a = rng.choice((0, 1, 2, 3, rng.randrange(30))) if kind != 'k' else 0
        if kind in 'wk':
            y = isqrt(x ** 3 + a * x) + rng.randrange(1, 6)
            b = y * y - x ** 3 - a * x
            Cs = [ec.Weierstrass(p, a, b) for p in primes if (4 * a ** 3 + 27 * b * b) % p]
        elif kind == 'm':
            x, a = 1, y * y - 2
            Cs = [ec.Montgomery(p, a) for p in primes if (a * a - 4) % p]
        else:
            x, d = 1, rng.randrange(2, top)
            a = 1 + (d - 1) * y * y if kind == 'e' else 1
            Cs = [ec.Edwards(p, a, d) for p in primes if nt.jacobi(a, p) == 1 and nt.jacobi(d, p) == -1]
        if len(Cs) < len(primes) or len(set((C.a, getattr(C, 'b', 0), getattr(C, 'd', 0)) for C in Cs)) > 1:
            continue
        out = [(C, (x, y) if kind != 'd' else a_point(rng, kind, C)) for C in Cs]
        if all(P and C.on(P) and P != C.O for C, P in out):
            return [(C, params(C, kind, P, nt.prev_prime(C.p), 1), P) for C, P in out]
