from ..prog import Prog, V, eq, is_pt, truth, refused
from ..oracle import table, ec
from .. import curvegen as cg, gen

RULE = ('one history = one curve and a series of coordinate pairs offered to it as points: every pair (x, y) of small fields; on '
        'published and user curves genuine points, their negatives, near misses (one coordinate off by one bit or by one, swapped, zero, '
        'points of other curves, of the same equation with another constant), coordinates not reduced mod p or negative; equality and inequality '
        'of the accepted ones; and their octet encodings, for coordinates with leading zero octets and fields at every octet '
        'size boundary. Non-trivial: acceptance, equality and encoding are compared with the curve equation and the definition')


def accept(p, C, x, y, d='p'):
    if C.on((x, y)):
        p.call('.point', x, y, o='E', d=d, expect=is_pt(None if C.kind == 'e' and (x % C.p, y % C.p) == (0, 1) else (x % C.p, y % C.p)))
        return True
    p.on('E', 'point', x, y, expect=refused)


def encode(p, C, P, size, v='p'):
    x, y = P[0].to_bytes(size, 'big'), P[1].to_bytes(size, 'big')
    p.on(v, 'encode', expect=eq(x + y))
    p.on(v, 'toOctets', expect=eq(x))
    p.on(v, 'to_octetstring', expect=eq(x + y))


def near_misses(rng, C, P):
    p = C.p
    x, y = P
    b = p.bit_length()
    yield x, (y + 1) % p
    yield x, (y - 1) % p
    yield (x + 1) % p, y
    yield (x - 1) % p, y
    yield y, x
    yield x, 0
    yield 0, y
    yield 0, 0
    yield 1, 1
    yield x, x
    yield y, y
    yield x, y ^ (1 << rng.randrange(b))
    yield x ^ (1 << rng.randrange(b)), y
    yield rng.randrange(p), y
    yield x, rng.randrange(p)
    yield rng.randrange(p), rng.randrange(p)
    yield -x % p, y
    yield x, -y % p
    yield -x % p, -y % p
    yield 2 * x % p, 2 * y % p
    yield p - 1, 0
    yield 0, p - 1
    yield 0, 1
    yield 1, 0


def small_x(C, limit=400):
    """ points whose coordinates have leading zero octets """
    if C.kind == 'e':
        for y in range(limit):
            den = (C.a - C.d * y * y) % C.p
            x = ec.sqrt_mod((1 - y * y) * ec.inv(den, C.p), C.p) if den else None
            if x is not None:
                yield x, y
    else:
        for x in range(limit):
            f = x ** 3 + C.a * x + C.b if C.kind == 'w' else x ** 3 + C.a * x * x + x
            y = ec.sqrt_mod(f % C.p, C.p)
            if y is not None:
                yield x, y


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for kind in 'wkmed':
        for prime in [3, 5, 7, 11, 13, 17, 19, 23] if big else rng.sample([3, 5, 7, 11, 13, 17, 19, 23], 3):
            C, par, pts = cg.small(rng, kind, prime)
            p = Prog('every coordinate pair of a small field', cost=1)
            p.curve('E', cg.BASE[kind], par)
            for x in range(prime):
                for y in range(prime):
                    accept(p, C, x, y)
            for P in [Q for Q in pts if Q]:
                for dx, dy in ((1, 0), (0, 1), (-1, 0), (0, -1), (-2, 3), (1, 1)):
                    accept(p, C, P[0] + dx * prime, P[1] + dy * prime, 'q')
                cg.point(p, 'a', P)
                p.op('eq', V('a'), V('q'), expect=truth(True))
                p.op('ne', V('a'), V('q'), expect=truth(False))
            out.append(p)
            p = Prog('equality on a small curve', cost=1)
            p.curve('E', cg.BASE[kind], par)
            use = pts if len(pts) <= 24 else [pts[0]] + rng.sample(pts[1:], 23)
            for i, P in enumerate(use):
                cg.point(p, 'p%d' % i, P)
            for i in range(len(use)):
                for j in range(len(use)):
                    p.op('eq', V('p%d' % i), V('p%d' % j), expect=truth(i == j))
                    p.op('ne', V('p%d' % i), V('p%d' % j), expect=truth(i != j))
            out.append(p)
    work = [(n, None) for n in table.names()]
    for kind in 'wkmed':
        work += [(None, (kind, q)) for q in ([251, 257, 509, 521, 65521, 65537, 16777213, 16777259, 2 ** 31 - 1, 4294967291, 4294967311]
                                             if big else rng.sample([251, 257, 509, 521, 65521, 65537, 16777213, 16777259], 3) +
                                             rng.sample([2 ** 31 - 1, 4294967291, 4294967311], 1))]
    for name, user in work:
        p = Prog('near misses and encodings', cost=1)
        if name:
            C, pts = table.oracle(name), [table.G(name)] + [table.random_point(rng, name) for _ in range(2 if not big else 8)]
            p.new('E', table.cls(name))
        else:
            C, par, pts = cg.medium(rng, user[0], user[1], 3)
            p.curve('E', cg.BASE[user[0]], par)
        size = (C.p.bit_length() + 7) // 8
        p.attr('E', 'coord_size', expect=eq(size))
        p.attr('E', 'IDENTITY', d='O')
        p.on('E', 'on_curve', V('O'), expect=truth(True))
        for P in pts:
            assert accept(p, C, *P)
            encode(p, C, P, size)
            p.on('E', 'on_curve', V('p'), expect=truth(True))
            for x, y in near_misses(rng, C, P):
                accept(p, C, x, y, 'z')
            m = rng.choice((1, 2, -1, -3, 2 ** 40))
            accept(p, C, P[0] + m * C.p, P[1], 'q')
            p.op('eq', V('p'), V('q'), expect=truth(True))
            accept(p, C, P[0], P[1] - m * C.p, 'q')
            p.op('eq', V('p'), V('q'), expect=truth(True))
            encode(p, C, P, size, 'q')
            accept(p, C, P[0] + m * C.p, P[1] + 1 - m * C.p, 'zz')
            p.op('neg', V('p'), d='n', q=1)
            encode(p, C, C.neg(P), size, 'n')
            if C.neg(P) != P:
                p.op('eq', V('p'), V('n'), expect=truth(False))
            p.call('.identity', o='E', d='o', q=1)
            if P != C.O:
                p.op('eq', V('p'), V('o'), expect=truth(False))
                p.op('ne', V('o'), V('p'), expect=truth(True))
        low = [P for P in small_x(C, 300 if name else 40) if P != C.O]
        for P in rng.sample(low, min(len(low), 6)):
            accept(p, C, P[0], P[1])
            encode(p, C, P, size)
        if C.kind == 'e':
            accept(p, C, 0, C.p - 1)
            encode(p, C, (0, C.p - 1), size)
        if C.kind == 'm':
            accept(p, C, 0, 0)
            encode(p, C, (0, 0), size)
        # a point of the same equation with another constant
        if C.kind == 'w':
            b2 = (C.b + 1 + rng.randrange(5)) % C.p
            W = ec.Weierstrass(C.p, C.a, b2)
        elif C.kind == 'm':
            W = ec.Montgomery(C.p, C.a + 1 + rng.randrange(5))
        else:
            W = None
        for _ in range(4 if W else 0):
            while True:
                x = rng.randrange(C.p)
                f = x ** 3 + W.a * x + W.b if C.kind == 'w' else x ** 3 + W.a * x * x + x
                y = ec.sqrt_mod(f % C.p, C.p)
                if y is not None:
                    break
            accept(p, C, x, y, 'z')
        out.append(p)
    # the same coordinates on different curves over one field
    for prime in [11, 13, 17, 23, 65537, 2 ** 31 - 1, 2 ** 127 - 1]:
        pair = 'ww' if rng.randrange(2) else rng.choice(('ee', 'wm', 'wk', 'we'))
        for _ in range(50):
            C = cg.oracle(rng, pair[0], prime)
            P = cg.a_point(rng, pair[0], C)
            if P is None:
                continue
            if pair[0] == pair[1]:
                D = cg.sibling(rng, pair[0], C, P)
            else:
                D = cg.oracle(rng, pair[1], prime)
                if pair[1] == 'm':
                    a = (P[1] ** 2 - P[0] ** 3 - P[0]) * ec.inv(P[0] ** 2, prime) % prime if P[0] else 2
                    D = ec.Montgomery(prime, a) if (a * a - 4) % prime else None
                elif pair[1] == 'k':
                    b = (P[1] ** 2 - P[0] ** 3) % prime
                    D = ec.Weierstrass(prime, 0, b) if b and C.a else None
            if D is not None and D.on(P) and P[0] and P[1]:
                break
        else:
            continue
        p = Prog('equal coordinates on different curves')
        p.curve('E', cg.BASE[pair[0]], cg.params(C, pair[0], P, 7, 1))
        p.curve('F', cg.BASE[pair[1]], cg.params(D, pair[1], P, 7, 1))
        p.call('.point', P[0], P[1], o='E', d='a', expect=is_pt(P))
        p.call('.point', P[0], P[1], o='F', d='b', expect=is_pt(P))
        p.call('.point', P[0], P[1], o='E', d='c', expect=is_pt(P))
        for v, w, same in (('a', 'b', 0), ('b', 'a', 0), ('a', 'c', 1), ('c', 'b', 0)):
            p.op('eq', V(v), V(w), expect=truth(same))
            p.op('ne', V(v), V(w), expect=truth(not same))
        # identities are elements of their own groups
        p.call('.identity', o='E', d='oa', q=1)
        p.call('.identity', o='F', d='ob', q=1)
        p.call('.identity', o='E', d='oc', q=1)
        for v, w, same in (('oa', 'ob', 0), ('ob', 'oa', 0), ('oa', 'oc', 1), ('oa', 'a', 0), ('ob', 'a', 0), ('a', 'ob', 0)):
            p.op('eq', V(v), V(w), expect=truth(same))
            p.op('ne', V(v), V(w), expect=truth(not same))
        for D2, n, w in ((C, 'E', 'F'), (D, 'F', 'E')):
            X = D if w == 'F' else C
            for _ in range(6):
                Q = cg.a_point(rng, pair[1] if w == 'F' else pair[0], X)
                if Q is not None and not D2.on(Q):
                    p.call('.point', Q[0], Q[1], o=w, d='z', expect=is_pt(Q))
                    p.on(n, 'on_curve', V('z'), expect=truth(False))
        # both curves still accept and refuse for themselves
        for x, y in near_misses(rng, C, P):
            for n, X in (('E', C), ('F', D)):
                if X.on((x, y)):
                    p.call('.point', x, y, o=n, q=1, d='z')
                else:
                    p.on(n, 'point', x, y, expect=refused)
        out.append(p)
    # points with nearly the same coordinates; the same ones over several fields
    for kind in 'wkmed':
        for prime in [10007] + cg.MEDIUM + [2 ** 255 - 19, 2 ** 521 - 1] if big else rng.sample(cg.MEDIUM, 3) + [2 ** 255 - 19]:
            p = Prog('points nearly alike', cost=1)
            size = (prime.bit_length() + 7) // 8
            for _ in range(10):
                C, par, (P, Q) = cg.near_pair(rng, kind, prime)
                p.curve('E', cg.BASE[kind], par)
                for v, A in (('p', P), ('q', Q), ('r', P)):
                    p.call('.point', A[0], A[1], o='E', d=v, expect=is_pt(A))
                    encode(p, C, A, size, v)
                p.op('neg', V('q'), d='n', q=1)
                for v, w, same in (('p', 'q', 0), ('q', 'p', 0), ('p', 'r', 1), ('p', 'n', P == C.neg(Q)), ('n', 'p', P == C.neg(Q)), ('n', 'q', Q == C.neg(Q))):
                    p.op('eq', V(v), V(w), expect=truth(same))
                    p.op('ne', V(v), V(w), expect=truth(not same))
                for _ in range(3):
                    accept(p, C, gen.alike(rng, P[0], prime), P[1], 'z')
                    accept(p, C, P[0], gen.alike(rng, P[1], prime), 'z')
                    accept(p, C, gen.alike(rng, P[0], prime), gen.alike(rng, P[1], prime), 'z')
            out.append(p)
        p = Prog('one equation over several fields', cost=1)
        fam = cg.same_numbers(rng, kind, rng.choice((gen.alike_primes(rng), rng.sample(cg.MEDIUM, 3) + [10007], [17, 23, 31, 41] if kind in 'wkm' else [10007, 10009])))
        for i, (C, par, P) in enumerate(fam):
            p.curve('E%d' % i, cg.BASE[kind], par)
        for s in range(40):
            i = rng.randrange(len(fam))
            C, par, P = fam[rng.choice((i, rng.randrange(len(fam))))]
            Q = rng.choice((P, cg.a_point(rng, kind, C)))
            D = fam[i][0]
            if Q and D.on(Q):
                p.call('.point', Q[0], Q[1], o='E%d' % i, d='z', expect=is_pt(None if D.kind == 'e' and (Q[0] % D.p, Q[1] % D.p) == (0, 1) else (Q[0] % D.p, Q[1] % D.p)))
            elif Q:
                p.on('E%d' % i, 'point', Q[0], Q[1], expect=refused)
        out.append(p)
    # points of one published curve offered to another with the same size of field
    p = Prog('points of other curves')
    for _ in range(40):
        a, b = rng.sample(table.names(), 2)
        C = table.oracle(a)
        p.new('E', table.cls(a))
        accept(p, C, table.G(b)[0] % C.p, table.G(b)[1] % C.p, 'z')
    out.append(p)
    return [('main', out, {})]
