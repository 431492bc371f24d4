from ..prog import Prog, V, eq, is_pt, truth
from ..oracle import table
from .. import curvegen as cg, gen
from ..groupcases import pt

RULE = ('one history = multiplications of points of one curve by integers: on small curves every point by every integer from '
        '-2N to 2N (N the group order) and some long ones; on each published curve the generator, other points and points outside the '
        'subgroup by structured integers (0, +-1, 2, 3, n, n+-1, 2n, hn, -n, 2^k, 2^k-1, alternating bits, runs, one zero bit, longer than n '
        'by up to 200 bits, negative). k*P and P*k. Non-trivial: compared with the oracle\'s double-and-add; n*G has to be '
        'the identity without the library being told')


def structured(rng, n, count):
    b = n.bit_length()
    fixed = [n, n - 1, n + 1, -n, 1 - n]
    pool = [2 * n, 2 * n + 1, 3 * n - 1, n + 2, n // 2, n // 3, -(n + 7), (n + 1) // 2]
    for _ in range(count):
        pool += [1 << rng.randrange(1, b + 60), (1 << rng.randrange(1, b + 60)) - 1, (1 << rng.randrange(2, b)) + 1,
                 rng.randrange(n), -rng.randrange(n), rng.getrandbits(b + rng.randrange(1, 200)),
                 int('10' * (b // 2), 2), int('110' * (b // 3), 2), ((1 << b) - 1) ^ (1 << rng.randrange(b)),
                 -rng.getrandbits(b + 30), rng.getrandbits(rng.randrange(1, 70)),
                 ((1 << rng.randrange(1, b)) - 1) << rng.randrange(1, 40),
                 int(''.join(rng.choice(('000', '111', '1', '0')) for _ in range(b // 2)), 2) + 1]
    rng.shuffle(pool)
    return fixed, pool


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for kind in 'wkmed':
        for prime in cg.SMALL if big else rng.sample(cg.SMALL, 3):
            C, par, pts = cg.small(rng, kind, prime)
            N = len(pts)
            ks = list(range(-2 * N, 2 * N + 1))
            if not big:
                ks = sorted(set(range(-6, 7)) | set(rng.sample(ks, min(len(ks), 50))) | {N, -N, 2 * N, N + 1, N - 1, 2 * N - 1})
            ks += [N * rng.getrandbits(70) + rng.randrange(3), rng.getrandbits(200), -rng.getrandbits(90), rng.getrandbits(rng.choice((600, 1100))) | 1 << 530]
            use = pts if len(pts) <= 20 or big else rng.sample(pts, 20)
            p = Prog('every point of a small curve', cost=len(use) * len(ks) / 300.)
            p.curve('E', cg.BASE[kind], par)
            for i, P in enumerate(use):
                cg.point(p, 'p', P)
                for k in ks:
                    want = is_pt(pt(C, C.mul(k, P)))
                    if k & 1:
                        p.op('mul', V('p'), k, expect=want)
                    else:
                        p.op('mul', k, V('p'), expect=want)
            out.append(p)
    for kind in 'wkmed':
        for prime in cg.MEDIUM if big else rng.sample(cg.MEDIUM, 3):
            C, par, pts = cg.medium(rng, kind, prime, 3)
            p = Prog('user curves over primes around the machine word', cost=2)
            p.curve('E', cg.BASE[kind], par)
            for P in pts:
                cg.point(p, 'p', P)
                fixed, pool = structured(rng, C.p, 2)
                for k in fixed + pool[:10] + [rng.getrandbits(1030) | 1 << 1029, -rng.getrandbits(530), (1 << 2050) + 1, rng.getrandbits(4100)]:
                    p.op('mul', V('p'), k, expect=is_pt(pt(C, C.mul(k, P))))
            out.append(p)
    for n in table.names():
        c, C, G = table.PARAMS[n], table.oracle(n), table.G(n)
        fixed, pool = structured(rng, c['n'], 3 if big else 1)
        for rep in range(1 if not big else 6):
            p = Prog('published curves, generator', cost=6 * (C.p.bit_length() / 256.) ** 2)
            p.new('E', table.cls(n))
            p.call('.generator', o='E', d='g', q=1)
            for k in [0, 1, -1, 2, 3] + fixed[:] + pool[rep * 5: rep * 5 + (3 if not big else 6)] + [c['h'] * c['n']][:c['h'] > 1]:
                want = is_pt(pt(C, C.mul(k, G)))
                p.op('mul', *rng.choice(((k, V('g')), (V('g'), k))), expect=want)
            out.append(p)
            p = Prog('published curves, other points', cost=3 * (C.p.bit_length() / 256.) ** 2)
            p.new('E', table.cls(n))
            P = table.random_point(rng, n)
            cg.point(p, 'p', P)
            low = C.mul(c['n'], P)           # a point whose order divides the cofactor
            ks = [c['n'], rng.choice(pool), rng.randrange(c['n'])]
            if c['h'] > 1:
                ks += [c['h'] * c['n'], c['n'] + 1]
            for k in ks:
                p.op('mul', V('p'), k, expect=is_pt(pt(C, C.mul(k, P))))
            if low != C.O:
                cg.point(p, 'l', low)
                for k in (1, 2, 3, 4, 5, 7, 8, 9, -1, -3, c['n'], c['n'] + 1, c['h'] * c['n'], rng.getrandbits(60)):
                    p.op('mul', V('l'), k, expect=is_pt(pt(C, C.mul(k, low))))
            # distributivity over sums, by the library's own ==
            a, b = rng.getrandbits(80), rng.getrandbits(90)
            p.op('mul', a, V('p'), d='x', q=1)
            p.op('mul', b, V('p'), d='y', q=1)
            p.op('add', V('x'), V('y'), d='x', q=1)
            p.op('mul', a + b, V('p'), d='y', q=1)
            p.op('eq', V('x'), V('y'), expect=truth(True))
            out.append(p)
    for kind in 'wkmed':
        for prime in ([11, 17, 23, 31] + cg.MEDIUM if big else [rng.choice((11, 17, 23, 31)), rng.choice(cg.MEDIUM)]) + [0, 1]:
            if prime > 1:
                fam = cg.family(rng, kind, prime, 3)
                p = Prog('several curves over one field', cost=2)
            else:
                fam = cg.same_numbers(rng, kind, gen.alike_primes(rng)[:3] if prime else rng.sample(cg.MEDIUM, 2) + [10007])
                prime = fam[0][0].p
                p = Prog('one equation over several fields', cost=2)
            for i, (C, par, P) in enumerate(fam):
                p.curve('E%d' % i, cg.BASE[kind], par)
                cg.point(p, 'p%d' % i, P, 'E%d' % i)
            fixed, pool = structured(rng, prime, 1)
            ks = [2, 3, -1, -2] + fixed + pool[:10]
            for k in ks + ks[:3]:
                for i in rng.sample(range(len(fam)), len(fam)):
                    p.op('mul', *rng.choice(((k, V('p%d' % i)), (V('p%d' % i), k))), expect=is_pt(pt(fam[i][0], fam[i][0].mul(k, fam[i][2]))))
            out.append(p)
    for n in rng.sample(table.names(), 4 if not big else 20):
        c, C, G = table.PARAMS[n], table.oracle(n), table.G(n)
        p = Prog('scalars of much more than the size of the field', cost=14 * (C.p.bit_length() / 256.) ** 2)
        p.new('E', table.cls(n))
        P = rng.choice((G, table.random_point(rng, n)))
        cg.point(p, 'p', P)
        for k in (rng.getrandbits(1100) | 1 << 1099, c['n'] << 600, (1 << 1025) - 1, -(c['n'] * rng.getrandbits(200) + 1)):
            p.op('mul', *rng.choice(((k, V('p')), (V('p'), k))), expect=is_pt(pt(C, C.mul(k, P))))
        out.append(p)
    for kind in 'wkmed':
        for prime in rng.sample(cg.MEDIUM, 2 if not big else 8):
            p = Prog('points and integers nearly alike', cost=2)
            C, par, pts = cg.near_pair(rng, kind, prime)
            p.curve('E', cg.BASE[kind], par)
            ks = [rng.getrandbits(b) for b in (8, 40, 70, 140)]
            ks += [gen.alike(rng, k, 1 << 200) for k in ks for _ in 'ab'] + [-k for k in ks]
            todo = [(i, k) for i in (0, 1) for k in ks]
            rng.shuffle(todo)
            for i, P in enumerate(pts):
                cg.point(p, 'p%d' % i, P)
            for i, k in todo + todo[:6]:
                v = V('p%d' % i)
                want = is_pt(pt(C, C.mul(k, pts[i])))
                o = rng.randrange(3)
                if o == 2:
                    p.op('imul', v, k, expect=want)
                    p.attr('p%d' % i, 'x', expect=eq(pts[i][0]))
                else:
                    p.op('mul', *((k, v), (v, k))[o], expect=want)
            out.append(p)
    # the identity times anything
    for kind in 'wkmed':
        C, par, pts = cg.small(rng, kind, 23)
        p = Prog('multiples of the identity')
        p.curve('E', cg.BASE[kind], par)
        p.call('.identity', o='E', d='o', q=1)
        for k in (0, 1, 2, 3, -1, -2, 10, par['n'], rng.getrandbits(300), -rng.getrandbits(100)):
            p.op('mul', V('o'), k, expect=is_pt(None))
        out.append(p)
    return [('main', out, {})]
