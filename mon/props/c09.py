from ..prog import Prog, V, refused
from ..oracle import table, ec, nt
from .. import groupcases as gc, curvegen as cg

RULE = ('one history = one Weierstrass curve (small ones over every kind of prime 3..53 with all pairs of points, including the '
        'identity, inverses and points of order 2; user curves over primes around 2^16, 2^31, 2^32, 2^63, 2^64; the published '
        'ones) and a sequence of additions, subtractions, negations and doublings whose results are operands of later steps; '
        'points of chosen coordinates (0, 1, -1, equal, opposite), several curves or several objects of one class by turns. '
        'Non-trivial: every result is compared with the textbook affine oracle; associativity also by the library\'s own ==')


def plan(rng, tier):
    out = gc.build(rng, tier, 'wk', table.names('w'))
    names = table.names('w')
    for i in range(6):
        p = Prog('points of different curves')
        a, b = rng.sample(names, 2)
        p.new('E', table.cls(a))
        p.new('F', table.cls(b))
        p.call('.generator', o='E', d='g', q=1)
        p.call('.generator', o='F', d='h', q=1)
        p.op('add', V('g'), V('h'), expect=refused)
        p.op('add', V('h'), V('g'), expect=refused)
        out.append(p)
    # also where the coordinates would do on both curves
    for prime in [11, 13, 17, 23, 65537, 2 ** 31 - 1, 2 ** 127 - 1]:
        fam = cg.family(rng, 'w', prime, 2)
        p = Prog('points of different curves')
        for i, (C, par, P) in enumerate(fam):
            p.curve('E%d' % i, cg.BASE['w'], par)
            cg.point(p, 'p%d' % i, P, 'E%d' % i)
            p.op('neg', V('p%d' % i), d='n%d' % i, q=1)
            p.on('p%d' % i, 'double', d='d%d' % i, q=1)
        for a in 'pnd':
            for b in 'pnd':
                p.op('add', V(a + '0'), V(b + '1'), expect=refused)
                p.op('add', V(a + '1'), V(b + '0'), expect=refused)
        out.append(p)
    # curves that differ in one of p, a and b only; the identity belongs to a curve too
    for i in range(12 if tier == 'quick' else 60):
        q = rng.choice([23, 31, 43, 10007, 10009] + cg.MEDIUM)
        p = Prog('points of different curves')
        if i % 3 == 2:
            while True:
                ps = [q, nt.next_prime(q + rng.randrange(1, 60))]
                a, x, y = rng.randrange(20), rng.randrange(20), rng.randrange(20)
                b = y * y - x ** 3 - a * x
                if 0 < b < 23 and all((4 * a ** 3 + 27 * b * b) % m for m in ps):
                    fam = [(ec.Weierstrass(m, a, b), (x, y)) for m in ps]
                    break
        else:
            while True:
                a, b = rng.randrange(q), rng.randrange(1, q)
                o = (a, rng.choice((b ^ 1, -b % q, rng.randrange(q)))) if i % 3 else (rng.choice((a ^ 1, -a % q, rng.randrange(q))), b)
                if o != (a, b) and all(0 <= v < q and 0 <= w < q and (4 * v ** 3 + 27 * w * w) % q for v, w in ((a, b), o)):
                    Cs = [ec.Weierstrass(q, v, w) for v, w in ((a, b), o)]
                    fam = [(C, cg.a_point(rng, 'w', C, 0 if i % 3 == 0 else None)) for C in Cs]
                    if all(P for _, P in fam):
                        break
        for j, (C, P) in enumerate(fam):
            p.curve('E%d' % j, cg.BASE['w'], cg.params(C, 'w', P, nt.prev_prime(C.p), 1))
            cg.point(p, 'p%d' % j, P, 'E%d' % j)
            p.on('p%d' % j, 'double', d='d%d' % j, q=1)
            cg.point(p, 'o%d' % j, None, 'E%d' % j)
        for u in 'pdo':
            for v in 'pdo':
                for s, t in ('01', '10'):
                    p.op('add', V(u + s), V(v + t), expect=refused)
        out.append(p)
    return [('main', out, {})]
