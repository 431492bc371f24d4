from ..prog import Prog, V, M, eq, is_pt, truth, pred, El, Obj
from ..oracle import table, nt, ec

RULE = ('one history = one published curve of the library: the parameters it carries (field prime, coefficients, generator, order, '
        'cofactor, name, strength, object identifier, seeds), read from the class and from an instance, against the committed table of '
        'published values; the real generator is then put on the real curve, n*G, (n-1)*G and h*n*G are computed by the real code, and the '
        'recorded parameters are checked for primality, Hasse bound, non-singularity and non-trivial generator; plus the '
        'lists of curves by equation and the NIST names. Non-trivial: every history')
ASSUMPTIONS = ['curves.json holds the published values; 22 of the 40 curves are cross-checked with openssl by oracle/selftest.py, '
               'the others only by the algebraic checks']
SKIP = ('list',)


def params(p, name, v, c):
    for k in sorted(c):
        if k in SKIP:
            continue
        if k in ('a', 'd'):          # coefficients are field elements
            want = c[k] % c['p']
            p.attr(v, k, expect=pred(lambda r, want=want: isinstance(r, int) and r % c['p'] == want, '%s = %d mod p' % (k, want)))
        elif c[k] is None:
            p.attr(v, k, expect=pred(lambda r: r is None, 'no value'))
        else:
            p.attr(v, k, expect=eq(c[k].encode() if isinstance(c[k], str) else c[k]))


def algebra(name):
    """ the recorded values make a cryptographic group, whatever the table says """
    def check(res, idx):
        c = {k: res[i] for k, i in idx.items()}
        p, n, h = c['p'], c['n'], c['h']
        if not (nt.is_prime(p) and nt.is_prime(n)):
            return 'p or n is not prime'
        kind = table.oracle(name).kind
        C = ec.Weierstrass(p, c.get('a', 0), c['b']) if kind == 'w' else ec.Montgomery(p, c['a']) if kind == 'm' else \
            ec.Edwards(p, c.get('a', 1), c['d'])
        g = (c['xG'], c['yG'])
        if not (0 <= g[0] < p and 0 <= g[1] < p and C.on(g) and g != C.O):
            return 'G is not a finite point of the curve with coordinates in the field'
        if kind == 'w' and (4 * C.a ** 3 + 27 * C.b ** 2) % p == 0 or kind == 'm' and (C.a ** 2 - 4) % p == 0 or \
                kind == 'e' and (C.a * C.d * (C.a - C.d)) % p == 0:
            return 'the curve is singular'
        if (h * n - p - 1) ** 2 > 4 * p:
            return 'h*n is outside the Hasse bound'
        if C.mul(n, g) != C.O:
            return 'n*G is not the identity'
    return check


def plan(rng, tier):
    out = []
    for name, c in sorted(table.PARAMS.items()):
        C = table.oracle(name)
        size = (c['p'].bit_length() / 256.) ** 2
        p = Prog('published parameters', cost=5 * size)
        p.call('val:' + table.cls(name), d='K', q=1)
        params(p, name, 'K', c)
        p.new('E', table.cls(name))
        params(p, name, 'E', c)
        p.attr('E', 'coord_size', expect=eq((c['p'].bit_length() + 7) // 8))
        idx = {}
        for k in ('p', 'n', 'h', 'xG', 'yG', 'a', 'b', 'd'):
            if k in c:
                idx[k] = p.attr('K', k)
        chk = algebra(name)
        p.judge(lambda res, chk=chk, idx=idx: chk(res, idx))
        p.call('.generator', o='E', d='g', expect=is_pt(table.G(name)))
        p.on('E', 'on_curve', V('g'), expect=truth(True))
        p.op('mul', c['n'], V('g'), expect=is_pt(None))
        p.op('mul', c['n'] - 1, V('g'), expect=is_pt(C.neg(table.G(name))), d='m')
        p.op('add', V('m'), V('g'), expect=is_pt(None))
        p.op('mul', c['n'] + 1, V('g'), expect=is_pt(table.G(name)))
        p.op('mul', c['h'] * c['n'], V('g'), expect=is_pt(None))
        out.append(p)
    for alias, name in sorted(table.ALIASES.items()):
        c = table.PARAMS[name]
        p = Prog('NIST names', cost=2)
        p.call('val:' + table.cls(alias), d='K', q=1)
        for k in ('p', 'a', 'b', 'xG', 'yG', 'n', 'h', 'strength', 'oid'):
            p.attr('K', k, expect=eq(c[k] if k != 'a' else c[k]))
        p.new('E', table.cls(alias))
        p.call('.generator', o='E', d='g', expect=is_pt(table.G(name)))
        p.op('mul', c['n'], V('g'), expect=is_pt(None))
        out.append(p)
    p = Prog('lists of curves')
    for l in table.LISTS + ['allCurves']:
        want = sorted(n for n, c in table.PARAMS.items() if c['list'] == l or l == 'allCurves')
        p.call('val:cryptopy.ecc.curves:' + l, d='l', q=1)
        p.op('names', V('l'), expect=pred(lambda r, want=want: sorted(x.decode() for x in r if x.decode() in table.PARAMS) == want,
                                           'each of %d curves once: %s' % (len(want), ','.join(want)[:60])))
    out.append(p)
    return [('main', out, {})]
