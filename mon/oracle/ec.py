""" Independent elliptic curve oracles (affine, textbook formulas) """


def inv(a, p):
    return pow(a, -1, p)


class Weierstrass(object):
    kind = 'w'

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a % p, b % p

    O = None

    def on(self, P):
        return P is None or (P[1] * P[1] - P[0] ** 3 - self.a * P[0] - self.b) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            s = (3 * P[0] * P[0] + self.a) * inv(2 * P[1], p) % p
        else:
            s = (Q[1] - P[1]) * inv(Q[0] - P[0], p) % p
        x = (s * s - P[0] - Q[0]) % p
        return (x, (s * (P[0] - x) - P[1]) % p)

    def mul(self, k, P):
        if k < 0:
            k, P = -k, self.neg(P)
        R = self.O
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def points(self):
        """ every point of a small curve """
        p = self.p
        roots = {}
        for y in range(p):
            roots.setdefault(y * y % p, []).append(y)
        return [None] + [(x, y) for x in range(p) for y in roots.get((x ** 3 + self.a * x + self.b) % p, [])]


class Montgomery(Weierstrass):
    """ y^2 = x^3 + a x^2 + x """
    kind = 'm'

    def __init__(self, p, a):
        self.p, self.a = p, a % p

    def on(self, P):
        return P is None or (P[1] * P[1] - P[0] ** 3 - self.a * P[0] ** 2 - P[0]) % self.p == 0

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            s = (3 * P[0] * P[0] + 2 * self.a * P[0] + 1) * inv(2 * P[1], p) % p
        else:
            s = (Q[1] - P[1]) * inv(Q[0] - P[0], p) % p
        x = (s * s - self.a - P[0] - Q[0]) % p
        return (x, (s * (P[0] - x) - P[1]) % p)

    def points(self):
        p = self.p
        roots = {}
        for y in range(p):
            roots.setdefault(y * y % p, []).append(y)
        return [None] + [(x, y) for x in range(p) for y in roots.get((x ** 3 + self.a * x * x + x) % p, [])]


class Edwards(Weierstrass):
    """ a x^2 + y^2 = 1 + d x^2 y^2, identity (0, 1) """
    kind = 'e'
    O = (0, 1)

    def __init__(self, p, a, d):
        self.p, self.a, self.d = p, a % p, d % p

    def on(self, P):
        x, y = P
        return (self.a * x * x + y * y - 1 - self.d * x * x * y * y) % self.p == 0

    def neg(self, P):
        return (-P[0] % self.p, P[1])

    def add(self, P, Q):
        p = self.p
        t = self.d * P[0] * Q[0] * P[1] * Q[1] % p
        return ((P[0] * Q[1] + Q[0] * P[1]) * inv(1 + t, p) % p,
                (P[1] * Q[1] - self.a * P[0] * Q[0]) * inv(1 - t, p) % p)

    def points(self):
        p = self.p
        return [(x, y) for x in range(p) for y in range(p) if self.on((x, y))]


def sqrt_mod(a, p):
    """ a square root of a mod the odd prime p, or None (Cipolla) """
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    t = 1
    while pow(t * t - a, (p - 1) // 2, p) != p - 1:
        t += 1
    w = (t * t - a) % p

    def mul(u, v):
        return ((u[0] * v[0] + u[1] * v[1] * w) % p, (u[0] * v[1] + u[1] * v[0]) % p)
    r, b, e = (1, 0), (t, 1), (p + 1) // 2
    while e:
        if e & 1:
            r = mul(r, b)
        b = mul(b, b)
        e >>= 1
    assert r[1] == 0 and r[0] * r[0] % p == a
    return r[0]
