""" Group law histories, shared by the Weierstrass and the Edwards/Montgomery property """
from .prog import Prog, V, eq, is_pt, truth, refused
from .oracle import table, ec
from . import curvegen as cg, gen


def pairs_prog(tag, make, C, pts, pairs, cost):
    p = Prog(tag, cost=cost)
    make(p)
    for i, P in enumerate(pts):
        cg.point(p, 'p%d' % i, P)
    for i, j in pairs:
        p.op('add', V('p%d' % i), V('p%d' % j), expect=is_pt(pt(C, C.add(pts[i], pts[j]))))
    return p


def pt(C, P):
    return None if P == C.O else P


def unary(p, C, pts):
    for i, P in enumerate(pts):
        v = 'p%d' % i
        p.op('neg', V(v), expect=is_pt(pt(C, C.neg(P))), d='n')
        p.op('add', V(v), V('n'), expect=is_pt(None))
        p.on(v, 'double', expect=is_pt(pt(C, C.add(P, P))))
        p.op('sub', V(v), V(v), expect=is_pt(None))
        p.op('add', V(v), V(v), expect=is_pt(pt(C, C.add(P, P))))


def build(rng, tier, kinds, named):
    big = tier == 'thorough'
    out = []
    # every pair of points of small curves
    for kind in kinds:
        for prime in cg.SMALL if big else [3, 5] + rng.sample(cg.SMALL[2:], 6):
            for rep in range(6 if big else 1):
                C, par, pts = cg.small(rng, kind, prime)
                pairs = [(i, j) for i in range(len(pts)) for j in range(len(pts))]
                make = lambda p: p.curve('E', cg.BASE[kind], par)
                for part in gen.chunks(pairs, 1300):
                    out.append(pairs_prog('every pair of a small curve', make, C, pts, part, len(part) / 700.))
                p = pairs_prog('negation, doubling, subtraction on a small curve', make, C, pts, [], len(pts) / 100.)
                unary(p, C, pts)
                for _ in range(60):
                    i, j = rng.randrange(len(pts)), rng.randrange(len(pts))
                    p.op('sub', V('p%d' % i), V('p%d' % j), expect=is_pt(pt(C, C.add(pts[i], C.neg(pts[j])))))
                out.append(p)
    for kind in kinds:
        for prime in cg.MEDIUM if big else rng.sample(cg.MEDIUM, 5):
            C, par, pts = cg.medium(rng, kind, prime, 4)
            p = Prog('user curves over primes around the machine word', cost=2)
            p.curve('E', cg.BASE[kind], par)
            walk(rng, p, C, pts, 40 if not big else 120)
            out.append(p)
    for n in named:
        for rep in range(3 if big else 1):
            p = Prog('published curves', cost=2)
            p.new('E', table.cls(n))
            C = table.oracle(n)
            pts = [table.G(n), C.mul(rng.randrange(2, 2 ** 64), table.G(n))] + [table.random_point(rng, n) for _ in range(2)]
            walk(rng, p, C, pts, 20 if not big else 60)
            out.append(p)
    for kind in kinds:
        for prime in ([11, 13, 17, 23, 31] + cg.MEDIUM if big else [rng.choice((11, 13, 17, 23, 31)), rng.choice(cg.MEDIUM[:7]), rng.choice(cg.MEDIUM[7:])]):
            out.append(together(rng, kind, prime, 60 if not big else 200))
        for i in range(2 if not big else 10):
            # the same coefficients and coordinates over several fields
            ps = gen.alike_primes(rng) if i % 2 else rng.sample(cg.MEDIUM, 2) + [10007]
            out.append(together(rng, kind, 0, 40, cg.same_numbers(rng, kind, ps), 'one equation over several fields'))
        for prime in [10007] + cg.MEDIUM + [2 ** 255 - 19] if big else rng.sample(cg.MEDIUM, 2) + [2 ** 255 - 19]:
            p = Prog('points nearly alike', cost=2)
            for rep in range(8):
                C, par, (P, Q) = cg.near_pair(rng, kind, prime)
                p.curve('E', cg.BASE[kind], par)
                cg.point(p, 'p', P)
                cg.point(p, 'q', Q)
                for v, A, w, B in (('p', P, 'q', Q), ('q', Q, 'p', P), ('p', P, 'p', P)):
                    p.op('add', V(v), V(w), expect=is_pt(pt(C, C.add(A, B))))
                    p.op('sub', V(v), V(w), expect=is_pt(pt(C, C.add(A, C.neg(B)))))
                    p.on(v, 'double', expect=is_pt(pt(C, C.add(A, A))))
                    p.op('neg', V(v), expect=is_pt(C.neg(A)))
                    p.op('eq', V(v), V(w), expect=truth(A == B))
            out.append(p)
        for prime in [10007] + cg.MEDIUM + [2 ** 255 - 19] if big else rng.sample(cg.MEDIUM, 3) + [2 ** 255 - 19]:
            p = Prog('points of chosen coordinates', cost=2)
            for rep in range(20):
                C, par, P = cg.chosen_point(rng, kind, prime)
                p.curve('E', cg.BASE[kind], par)
                cg.point(p, 'p', P)
                cg.point(p, 'q', P)
                R = C.add(P, P)
                p.on('p', 'double', d='d', expect=is_pt(pt(C, R)))
                p.op('add', V('p'), V('q'), expect=is_pt(pt(C, R)))
                p.op('add', V('p'), V('d'), d='t', expect=is_pt(pt(C, C.add(P, R))))
                p.op('sub', V('d'), V('q'), expect=is_pt(pt(C, P)))
                p.op('neg', V('p'), d='n', expect=is_pt(pt(C, C.neg(P))))
                p.op('add', V('n'), V('d'), expect=is_pt(pt(C, P)))
                p.op('add', V('n'), V('q'), expect=is_pt(None))
                p.op('sub', V('t'), V('p'), expect=is_pt(pt(C, R)))
                p.on('d', 'double', expect=is_pt(pt(C, C.add(R, R))))
            out.append(p)
        for rep in range(3 if not big else 20):
            out.append(twins(rng, kind, None, 60))
    for n in rng.sample(named, min(len(named), 6)) if not big else named:
        out.append(twins(rng, None, n, 40))
    return out


def twins(rng, kind, name, steps):
    """ several objects of one class of curve, and points of each that are made in every way """
    p = Prog('several objects of one class', cost=2)
    objs = 'EFH'
    if name:
        for o in objs:
            p.new(o, table.cls(name))
        C, G = table.oracle(name), table.G(name)
    else:
        C, par, G = cg.near_pair(rng, kind, rng.choice(cg.MEDIUM))
        G = G[0]
        par = dict(par, xG=G[0], yG=G[1])
        p.curve('K', cg.BASE[kind], par, False)
        for o in objs:
            p.call('call', V('K'), d=o, q=1)
    pts = {}
    for step in range(steps):
        o = rng.choice(objs)
        have = pts.setdefault(o, [])
        d = '%s%d' % (o, len(have))
        k = rng.randrange(7) if len(have) > 1 else rng.choice((0, 1, 2))
        if k == 0:
            p.on(o, 'generator', d=d, expect=is_pt(pt(C, G)))
            R = G
        elif k == 1:
            p.on(o, 'identity', d=d, expect=is_pt(None))
            R = C.O
        elif k == 2:
            p.call('.point', G[0], G[1], o=o, d=d, expect=is_pt(pt(C, G)))
            R = G
        else:
            i, j = rng.randrange(len(have)), rng.randrange(len(have))
            v, w, A, B = V('%s%d' % (o, i)), V('%s%d' % (o, j)), have[i], have[j]
            p.op('eq', v, w, expect=truth(A == B))
            if k == 3:
                R = C.neg(A)
                p.op('neg', v, d=d, expect=is_pt(pt(C, R)))
            elif k == 4:
                R = C.add(A, C.neg(B))
                p.op('sub', v, w, d=d, expect=is_pt(pt(C, R)))
            else:
                R = C.add(A, B)
                p.op('add', v, w, d=d, expect=is_pt(pt(C, R)))
        have.append(R)
    return p


def together(rng, kind, prime, steps, fam=None, tag='several curves over one field'):
    """ several curves over one field used by turns, from points with the same coordinates """
    fam = fam or cg.family(rng, kind, prime, rng.choice((2, 3)))
    p = Prog(tag, cost=2)
    pts = []
    for i, (C, par, P) in enumerate(fam):
        p.curve('E%d' % i, cg.BASE[kind], par)
        p.call('.identity', o='E%d' % i, d='c%dp0' % i, q=1)
        p.call('.point', P[0], P[1], o='E%d' % i, d='c%dp1' % i, expect=is_pt(pt(C, P)))
        pts.append([C.O, P])
    for s in range(steps):
        a = rng.randrange(len(pts[0]))
        b = rng.choice((a, rng.randrange(len(pts[0]))))
        k = rng.randrange(4)
        order = list(range(len(fam)))
        rng.shuffle(order)
        for i in order:
            C, (A, B) = fam[i][0], (pts[i][a], pts[i][b])
            v, w, d = 'c%dp%d' % (i, a), 'c%dp%d' % (i, b), 'c%dp%d' % (i, len(pts[i]))
            if k == 0:
                R = C.add(A, A)
                p.on(v, 'double', d=d, expect=is_pt(pt(C, R)))
            elif k == 1:
                R = C.neg(A)
                p.op('neg', V(v), d=d, expect=is_pt(pt(C, R)))
            elif k == 2:
                R = C.add(A, C.neg(B))
                p.op('sub', V(v), V(w), d=d, expect=is_pt(pt(C, R)))
            else:
                R = C.add(A, B)
                p.op('add', V(v), V(w), d=d, expect=is_pt(pt(C, R)))
            pts[i].append(R)
    return p


def walk(rng, p, C, pts, steps):
    """ sums of sums: results are used as operands again """
    pts = [C.O] + list(pts)
    for i, P in enumerate(pts):
        if P is None:
            cg.point(p, 'p%d' % i, None)
        elif i == 0:
            p.call('.identity', o='E', d='p0', q=1)
        else:
            cg.point(p, 'p%d' % i, P)
    unary(p, C, pts)
    for s in range(steps):
        i = rng.randrange(len(pts))
        j = rng.choice((i, rng.randrange(len(pts)), rng.randrange(len(pts))))
        k = rng.randrange(5)
        if k == 0:
            R = C.add(pts[i], C.neg(pts[j]))
            p.op('sub', V('p%d' % i), V('p%d' % j), d='p%d' % len(pts), expect=is_pt(pt(C, R)))
        elif k == 1:
            R = C.neg(pts[i])
            p.op('neg', V('p%d' % i), d='p%d' % len(pts), expect=is_pt(pt(C, R)))
        elif k == 2:
            R = C.add(pts[i], pts[i])
            p.on('p%d' % i, 'double', d='p%d' % len(pts), expect=is_pt(pt(C, R)))
        else:
            R = C.add(pts[i], pts[j])
            p.op('add', V('p%d' % i), V('p%d' % j), d='p%d' % len(pts), expect=is_pt(pt(C, R)))
        pts.append(R)
        if s % 4 == 1:
            # augmented assignment: a name of a point changes, not the point
            i, j = rng.randrange(len(pts)), rng.randrange(len(pts))
            o = rng.choice(('iadd', 'isub', 'imul'))
            n = rng.choice((0, 1, 2, 3, 5, -1, 8))
            p.op(o, V('p%d' % i), n if o == 'imul' else V('p%d' % j), d='l',
                 expect=is_pt(pt(C, C.mul(n, pts[i]) if o == 'imul' else C.add(pts[i], pts[j] if o == 'iadd' else C.neg(pts[j])))))
            p.attr('p%d' % i, 'x', expect=eq((pt(C, pts[i]) or C.O or (None, None))[0]))
            p.attr('p%d' % i, 'y', expect=eq((pt(C, pts[i]) or C.O or (None, None))[1]))
        if s % 4 == 3:
            # (P + Q) + R == P + (Q + R), by the library's own equality
            i, j, k = (rng.randrange(len(pts)) for _ in range(3))
            p.op('add', V('p%d' % i), V('p%d' % j), d='l', q=1)
            p.op('add', V('l'), V('p%d' % k), d='l', q=1)
            p.op('add', V('p%d' % j), V('p%d' % k), d='r', q=1)
            p.op('add', V('p%d' % i), V('r'), d='r', q=1)
            p.op('eq', V('l'), V('r'), expect=truth(True))
