from ..prog import Prog, V, eq, truth
from ..oracle import table, ec
from .. import curvegen as cg, gen
from .c10 import structured

RULE = ('one history = both x-only ladders of one Montgomery curve on points of it: every point of small curves by every integer up '
        'to 2N and negatives; the published curves by structured integers (0, 1, n, n+-1, powers of 2, longer than n, clamped as in '
        'RFC 7748) including low order points and points outside the subgroup. Non-trivial: compared with the x coordinate of the '
        'oracle\'s multiple (0 for the identity)')
LADDERS = ('montgomery_ladder', 'montgomery_ladder2')


def x_of(P):
    return 0 if P is None else P[0]


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for prime in cg.SMALL if big else [3, 5] + rng.sample(cg.SMALL[2:], 5):
        for rep in range(4 if big else 1):
            C, par, pts = cg.small(rng, 'm', prime)
            N = len(pts)
            ks = list(range(0, 2 * N + 2)) + [-1, -2, -3, -N, 1 - N, rng.getrandbits(100), -rng.getrandbits(60)]
            use = pts[1:]
            p = Prog('every point of a small curve', cost=len(use) * len(ks) / 1500.)
            p.curve('E', cg.BASE['m'], par)
            for P in use:
                cg.point(p, 'p', P)
                for k in ks:
                    want = eq(x_of(C.mul(k, P)))
                    for l in LADDERS:
                        p.on('E', l, k, V('p'), expect=want)
            out.append(p)
    for prime in cg.MEDIUM if big else rng.sample(cg.MEDIUM, 5):
        C, par, pts = cg.medium(rng, 'm', prime, 4)
        p = Prog('user curves over primes around the machine word', cost=1)
        p.curve('E', cg.BASE['m'], par)
        for P in pts:
            cg.point(p, 'p', P)
            fixed, pool = structured(rng, C.p, 2)
            for k in [0, 1, 2, 3] + fixed + pool[:12] + [rng.getrandbits(1030) | 1 << 1029, -rng.getrandbits(530), (1 << 2050) + 1, rng.getrandbits(4100)]:
                for l in LADDERS:
                    p.on('E', l, k, V('p'), expect=eq(x_of(C.mul(k, P))))
        out.append(p)
    for i in range(6 if not big else 40):
        # the same coefficients over several fields, several coefficients over one, by turns
        kind = i % 3
        if kind == 2:
            C, par, pts = cg.near_pair(rng, 'm', rng.choice(cg.MEDIUM))
            fam = [(C, par, P) for P in pts]
        else:
            fam = (cg.same_numbers(rng, 'm', rng.choice((gen.alike_primes(rng), rng.sample(cg.MEDIUM, 3), [13, 17, 23, 29]))) if kind else
                   cg.family(rng, 'm', rng.choice(cg.MEDIUM + [23, 31]), 3))
        p = Prog(('several curves over one field', 'one equation over several fields', 'points nearly alike')[kind], cost=2)
        for j, (C, par, P) in enumerate(fam):
            p.curve('E%d' % j, cg.BASE['m'], par)
            cg.point(p, 'p%d' % j, P, 'E%d' % j)
        ks = [0, 1, 2, 3, -1, 5] + [rng.getrandbits(b) for b in (8, 30, 64, 130)]
        ks += [gen.alike(rng, k, 1 << 200) for k in ks[-3:]]
        todo = [(j, k, l) for j in range(len(fam)) for k in ks for l in LADDERS]
        rng.shuffle(todo)
        for j, k, l in todo:
            p.on('E%d' % j, l, k, V('p%d' % j), expect=eq(x_of(fam[j][0].mul(k, fam[j][2]))))
        out.append(p)
    for n in table.names('m'):
        c, C = table.PARAMS[n], table.oracle(n)
        for rep in range(4 if not big else 40):
            p = Prog('published curves', cost=2)
            p.new('E', table.cls(n))
            P = table.G(n) if rep == 0 else table.random_point(rng, n)
            if rep == 2:
                P = C.mul(c['n'], P) or (0, 0)
            if rep == 3:
                P = (0, 0)
            cg.point(p, 'p', P)
            fixed, pool = structured(rng, c['n'], 2)
            ks = [0, 1, 2, 3, 8] + fixed + pool[:8] + [c['h'] * c['n'], rng.getrandbits(1100) | 1 << 1099, (c['n'] << 600) + 1]
            if n == 'Curve25519':
                for _ in range(4):
                    b = bytearray(rng.randbytes(32))
                    b[0] &= 248
                    b[31] = b[31] & 127 | 64
                    ks.append(int.from_bytes(b, 'little'))
            for k in ks:
                want = x_of(C.mul(k, P))
                for l in LADDERS:
                    p.on('E', l, k, V('p'), expect=eq(want))
            out.append(p)
    return [('main', out, {})]
