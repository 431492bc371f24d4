""" Independent number theory oracles """
from math import gcd


def factor(n):
    """ [(prime, exponent)] by trial division and Pollard rho """
    out = {}

    def add(p):
        out[p] = out.get(p, 0) + 1

    def rec(m):
        if m == 1:
            return
        if is_prime(m):
            return add(m)
        d = rho(m)
        rec(d)
        rec(m // d)
    for p in range(2, 2000):
        while n % p == 0:
            add(p)
            n //= p
    if n > 1:
        rec(n)
    return sorted(out.items())


def rho(n):
    r = isqrt(n)
    if r * r == n:
        return r
    c = 1
    while True:
        x = y = 2
        d = 1
        while d == 1:
            x = (x * x + c) % n
            y = (y * y + c) % n
            y = (y * y + c) % n
            d = gcd(abs(x - y), n)
        if d != n:
            return d
        c += 1


def isqrt(n):
    from math import isqrt as f
    return f(n)


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    # Baillie-PSW style: 24 fixed bases (deterministic below 3.3e24) and a strong Lucas test
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return n < 3317044064679887385961981 or lucas(n)


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


def lucas(n):
    r = isqrt(n)
    if r * r == n:
        return False
    D = 5
    while jacobi(D, n) != -1:
        D = -(D + 2) if D > 0 else -(D - 2)
    P, Q = 1, (1 - D) // 4
    d, s = n + 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    U, W, qk = 1, P, Q
    for b in bin(d)[3:]:
        U, W = U * W % n, (W * W - 2 * qk) % n
        qk = qk * qk % n
        if b == '1':
            U, W = (P * U + W), (D * U + P * W)
            U = (U + n) // 2 % n if U % 2 else U // 2 % n
            W = (W + n) // 2 % n if W % 2 else W // 2 % n
            qk = qk * Q % n
    if U == 0 or W == 0:
        return True
    for _ in range(s - 1):
        W = (W * W - 2 * qk) % n
        if W == 0:
            return True
        qk = qk * qk % n
    return False


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


def prev_prime(n):
    n -= 1
    while not is_prime(n):
        n -= 1
    return n


def lcm(a, b):
    return a * b // gcd(a, b)


def phi(n):
    r = n
    for p, e in factor(n):
        r = r // p * (p - 1)
    return r


def carmichael(n):
    r = 1
    for p, e in factor(n):
        r = lcm(r, 2 ** (e - 2) if p == 2 and e > 2 else (p - 1) * p ** (e - 1))
    return r


def order(x, m):
    """ multiplicative order through the factors of carmichael(m) """
    o = carmichael(m)
    for p, e in factor(o):
        while o % p == 0 and pow(x, o // p, m) == 1 % m:
            o //= p
    return o


def strong_probable_prime(n, a):
    """ Miller-Rabin round for odd n >= 3 """
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    x = pow(a, d, n)
    if x == 1 or x == n - 1:
        return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1:
            return True
    return False


# polynomials, low order coefficient first
def pmod(f, m, p):
    """ remainder of f modulo the monic m, without trailing zeros """
    f = [c % p for c in f]
    d = len(m) - 1
    for i in range(len(f) - 1, d - 1, -1):
        c = f[i]
        if c:
            for j in range(d + 1):
                f[i - d + j] = (f[i - d + j] - c * m[j]) % p
    return trim(f[:d])


def trim(f):
    f = list(f)
    while f and f[-1] == 0:
        f.pop()
    return f


def pmul(f, g, m, p):
    r = [0] * (len(f) + len(g))
    for i, a in enumerate(f):
        for j, b in enumerate(g):
            r[i + j] += a * b
    return pmod(r, m, p)


def ppow(f, e, m, p):
    r = pmod([1], m, p)
    b = pmod(f, m, p)
    while e:
        if e & 1:
            r = pmul(r, b, m, p)
        b = pmul(b, b, m, p)
        e >>= 1
    return r
