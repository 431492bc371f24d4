from ..prog import Prog, V, eq, is_pt, truth, refused, pred
from ..oracle import table, ec, nt
from .. import curvegen as cg, gen

RULE = ('one history = one Weierstrass curve and either private keys drawn from it (system entropy, or entropy scripted to repeat one '
        'octet: 00, ff, others), whose range, spread (chi square), distinctness, dependence on each octet of the entropy and the number of bits asked for are judged; or a key agreement of two parties; or point '
        'decompression: y for the x of points of the curve, refusal for every x without a point. Small curves (all x), published '
        'curves, user curves over primes of every class mod 8. Non-trivial: every history')
ASSUMPTIONS = ['spread bounds of drawn keys are at least 6 standard deviations wide']


def key_ok(n):
    return pred(lambda d: isinstance(d, int) and 1 <= d <= n - 1, 'an integer from 1 to n-1')


def chi2(n):
    """ the draws against the uniform distribution on 1..n-1, in at most 64 cells """
    def judge(res):
        ds = [r for r in res if isinstance(r, list)][-1]
        if not all(isinstance(d, int) and 1 <= d <= n - 1 for d in ds):
            return 'a private key is not an integer from 1 to n-1'
        cells = min(n - 1, 64)
        if cells < 2:
            return None
        count = [0] * cells
        for d in ds:
            count[(d - 1) * cells // (n - 1)] += 1
        low = [-(-c * (n - 1) // cells) for c in range(cells + 1)]
        x = 0.0
        for c in range(cells):
            w = len(ds) * ((low[c + 1] - low[c]) / (n - 1))
            x += (count[c] - w) ** 2 / w
        if x > cells - 1 + 12 * (2 * cells - 2) ** 0.5 + 20:
            return 'private keys are not uniform in 1..n-1: chi square %.0f over %d cells, fullest %d, emptiest %d of %d draws' % (
                x, cells, max(count), min(count), len(ds))
    return judge


def enough(n):
    """ keys made from R bits, none of them thrown away, cannot be spread more evenly over the n-1 values than that some come floor and
        some ceil of 2**R / (n-1) times. Entropy of all one bits makes an implementation that throws away what is too large ask again """
    def judge(res):
        m = n - 1
        if any(x & x - 1 == 0 for x in (n - 1, n, n + 1)):
            return
        for b in [bytes(r) for r in res if isinstance(r, (bytes, bytearray)) and bytes(r).startswith(b'served')][1:]:
            bits = 8 * int(b.split()[1])
            if bits and 2 ** bits % m * (m - 2 ** bits % m) << 16 > m << bits:
                return 'private keys of %d bits are made from %d bits of entropy, which favours some of them' % (n.bit_length(), bits)
    return judge


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    W = table.names('w')
    for name in W:
        n = table.PARAMS[name]['n']
        p = Prog('private keys of published curves', cost=1)
        p.new('E', table.cls(name))
        draws = 60 if not big else 400
        idx = [p.on('E', 'new_private_key', expect=key_ok(n)) for _ in range(draws)]
        p.keep = True

        def spread(res, idx=idx, n=n, draws=draws):
            ds = [res[i] for i in idx]
            if len(set(ds)) != len(ds):
                return 'a private key came twice'
            hi = sum(1 for d in ds if d > n // 2)
            if abs(hi - draws / 2.) > 3.5 * draws ** 0.5 + 3:
                return '%d of %d private keys are above n/2' % (hi, draws)
            if max(ds).bit_length() < n.bit_length() - 8:
                return 'private keys do not reach the top of the range'
            for b in range(8):
                odd = sum(d >> b & 1 for d in ds)
                if abs(odd - draws / 2.) > 3.5 * draws ** 0.5 + 3:
                    return 'bit %d is set in %d of %d private keys' % (b, odd, draws)
        p.judge(spread)
        out.append(p)
        p = Prog('distribution of private keys', cost=2)
        p.new('E', table.cls(name))
        p.call('.new_private_key', o='E', rep=2000 if not big else 20000)
        p.judge(chi2(n))
        out.append(p)
        p = Prog('entropy of private keys', cost=1)
        p.new('E', table.cls(name))
        s = rng.randbytes(4000)
        for i in [None, None] + list(range(100)):
            p.stream(s if i is None else s[:i] + bytes([s[i] ^ 0xff]) + s[i + 1:])
            p.on('E', 'new_private_key', expect=key_ok(n))
        p.stream(b'')

        def entropy(res, n=n):
            ds = [r for r in res if isinstance(r, int)]
            served = [int(bytes(r).split()[1]) for r in res if isinstance(r, (bytes, bytearray)) and bytes(r).startswith(b'served')]
            if max(served[1:3]) > 100:      # asked again: octets beyond the changed ones count too
                return
            if len(ds) == 102 and ds[0] == ds[1]:
                k = sum(d != ds[0] for d in ds[2:])
                if 0 < 8 * k < n.bit_length() - 8:
                    return 'only %d octets of entropy have a say in a private key of %d bits' % (k, n.bit_length())
        p.judge(entropy)
        out.append(p)
        p = Prog('entropy asked for', cost=1)
        p.new('E', table.cls(name))
        p.scripted()
        for _ in range(3):
            p.stream(b'\xff' * 1000)
            p.on('E', 'new_private_key', expect=key_ok(n))
        p.scripted()
        p.judge(enough(n))
        out.append(p)
        p = Prog('private keys under scripted entropy', cost=1)
        p.new('E', table.cls(name))
        for o in [0, 0xff, 0x80, 0x7f, 1, 0xfe] + [rng.randrange(256) for _ in range(4)]:
            p.scripted(*[o] * 4)
            p.on('E', 'new_private_key', expect=key_ok(n))
            p.scripted()
        # requests that cannot be told from 0 mod n or 0 mod n-1
        for m in (n, n - 1, n + 1, 2 * n, 2 * (n - 1)):
            for extra in (0, 8):
                size = (table.PARAMS[name]['p'].bit_length() + 7) // 8 + extra
                if m.bit_length() <= 8 * size:
                    p.scripted(m.to_bytes(size, 'big'))
                    p.on('E', 'new_private_key', expect=key_ok(n))
                    p.scripted()
        out.append(p)
    # every private key of a small curve is drawn about equally often
    for prime in rng.sample([5, 7, 11, 13, 17, 19, 23, 29, 31, 257, 263, 269], 6 if not big else 12):
        while True:
            C, par, pts = cg.small(rng, 'w', prime)
            if 3 <= par['n'] <= 40:
                break
            if prime > 60 and par['n'] >= 3:
                break
        n = par['n']
        p = Prog('private keys of small curves', cost=1)
        p.curve('E', cg.BASE['w'], par)
        draws = 40 * min(n - 1, 40) + 200
        idx = [p.on('E', 'new_private_key', expect=key_ok(n)) for _ in range(draws)]

        def even(res, idx=idx, n=n, draws=draws):
            cells = min(n - 1, 40)
            count = [0] * cells
            for i in idx:
                count[(res[i] - 1) * cells // (n - 1)] += 1
            for c, k in enumerate(count):
                w = sum(1 for d in range(1, n) if (d - 1) * cells // (n - 1) == c) / (n - 1.)
                mean = draws * w
                sd = (mean * (1 - w)) ** 0.5
                if abs(k - mean) > 7 * sd + 2:
                    return 'cell %d of 1..%d drawn %d times of %d, expected about %.0f' % (c, n - 1, k, draws, mean)
        if n > 2:
            p.judge(even)
        out.append(p)
        p = Prog('distribution on small curves', cost=3)
        p.curve('E', cg.BASE['w'], par)
        p.call('.new_private_key', o='E', rep=12000 if not big else 100000)
        p.judge(chi2(n))
        out.append(p)
    for name in W + (['M511', 'Curve25519', 'Ed25519', 'E382'] if big else []):
        n, C, G = table.PARAMS[name]['n'], table.oracle(name), table.G(name)
        p = Prog('key agreement', cost=4 * (C.p.bit_length() / 256.) ** 2)
        p.new('E', table.cls(name))
        p.call('.generator', o='E', d='g', q=1)
        for r in range(1 if not big else 3):
            if C.kind == 'w' and r == 0:
                p.call('.new_private_key', o='E', d='a', expect=key_ok(n))
                p.call('.new_private_key', o='E', d='b', expect=key_ok(n))
            else:
                p.op('int', rng.randrange(1, n), d='a')
                p.op('int', rng.choice((1, n - 1, rng.randrange(1, n))), d='b')
            p.op('mul', V('a'), V('g'), d='A', q=1)
            p.op('mul', V('b'), V('g'), d='B', q=1)
            p.on('E', 'on_curve', V('A'), expect=truth(True))
            p.op('mul', V('a'), V('B'), d='s')
            p.op('mul', V('b'), V('A'), d='t')
            p.op('eq', V('s'), V('t'), expect=truth(True))
            p.call('.identity', o='E', d='o', q=1)
            p.op('ne', V('s'), V('o'), expect=truth(True))

        def same(res, C=C):
            from ..prog import Pt
            ps = [r for r in res if isinstance(r, Pt)]
            for s, t in zip(ps[::2], ps[1::2]):
                if s.v != t.v or s.v == 'O' or not C.on(tuple(s.v)):
                    return 'the two parties got %r and %r' % (s, t)
        p.judge(same)
        out.append(p)
    # decompression
    for prime in cg.SMALL + [97, 101, 103, 113, 127, 193, 257]:
        for kind in 'wk' if prime > 3 else 'w':
            C = cg.oracle(rng, kind, prime)
            p = Prog('decompression on small curves')
            par = cg.params(C, kind, (0, 0), 7, 1)
            p.curve('E', cg.BASE[kind], par)
            for x in range(prime):
                decompress(p, C, x)
            out.append(p)
    for name in W:
        C = table.oracle(name)
        p = Prog('decompression on published curves', cost=3 if C.p % 8 == 1 else 1)
        p.call('val:' + table.cls(name), d='K', q=1)
        p.new('E', table.cls(name))
        decompress(p, C, table.G(name)[0])
        for x in [0, 1, 2, C.p - 1, C.p - 3] + [rng.randrange(C.p) for _ in range(6 if not big else 30)]:
            decompress(p, C, x, rng.choice('KE'))
        out.append(p)
    ms = [65537, 12289, 40961, 7681, 2 ** 31 - 1, 4294967291, 4294967311, 18446744069414584321, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 127 - 1, 3 * 2 ** 30 + 1,
          5 * 2 ** 55 + 1]
    for prime in ms:
        C = cg.oracle(rng, rng.choice('wk'), prime)
        p = Prog('decompression on user curves')
        p.curve('E', cg.BASE['w'], cg.params(C, 'w', (0, 0), 7, 1))
        for x in [0, 1, 2, prime - 1] + [rng.randrange(prime) for _ in range(12)]:
            decompress(p, C, x)
        out.append(p)
    for prime in [11, 13, 17, 23, 29, 41, 97] + ms:
        Cs = [cg.oracle(rng, rng.choice('wk'), prime) for _ in range(3)]
        p = Prog('decompression on several curves over one field')
        for i, C in enumerate(Cs):
            p.curve('E%d' % i, cg.BASE['w'], cg.params(C, 'w', (0, 0), 7, 1), rng.randrange(2) == 0)
        xs = [0, 1, prime - 1] + [rng.randrange(prime) for _ in range(8)]
        for x in xs + xs[:4]:
            for i in rng.sample(range(3), 3):
                decompress(p, Cs[i], x, 'E%d' % i)
        out.append(p)
    for i in range(6 if not big else 40):
        if i % 2:
            fam = [C for C, _, _ in cg.same_numbers(rng, rng.choice('wk'), rng.choice((gen.alike_primes(rng)[:3], rng.sample(ms, 3), [13, 17, 23, 41])))]
        else:
            fam = [cg.oracle(rng, rng.choice('wk'), rng.choice(ms[4:]))]
        p = Prog('one equation over several fields' if i % 2 else 'x nearly alike', cost=2)
        for j, C in enumerate(fam):
            p.curve('E%d' % j, cg.BASE['w'], cg.params(C, 'w', (0, 0), 7, 1), rng.randrange(2) == 0)
        low = min(C.p for C in fam)
        xs = [0, 1, 2, 4] + [rng.randrange(low) for _ in range(4)]
        xs += [gen.alike(rng, x, low) for x in xs[4:] for _ in 'ab'] if low > 1000 else []
        todo = [(j, x) for j in range(len(fam)) for x in xs]
        rng.shuffle(todo)
        for j, x in todo + todo[:5]:
            decompress(p, fam[j], x, 'E%d' % j)
        out.append(p)
    return [('main', out, {})]


def decompress(p, C, x, v='E'):
    f = (x ** 3 + C.a * x + C.b) % C.p
    if ec.sqrt_mod(f, C.p) is None:
        p.on(v, 'y_from_x', x, expect=refused)
    else:
        p.on(v, 'y_from_x', x, expect=pred(lambda y: isinstance(y, int) and 0 <= y < C.p and y * y % C.p == f, 'a root of %d mod %d' % (f, C.p)))


def cross(name, progs, kept):
    """ private keys drawn in different processes """
    seen = {}
    for i, res in sorted(kept.items()):
        for r in res:
            if isinstance(r, int) and r > 2 ** 100:
                if r in seen and seen[r] != i:
                    return [(i, 'a private key drawn elsewhere came again')]
                seen[r] = i
    return []
