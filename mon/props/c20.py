from ..prog import Prog, V, L, eq, el, truth, refused, pred
from ..oracle import nt, table
from .. import gen

RULE = ('one history = one prime field and expressions over its elements: every operator, with elements and with plain integers (int and '
        'long, negative, larger than p) on either side, chained expressions, comparisons, conversions, inverses and is_element. All pairs '
        'of small fields, the fields of the published curves, random primes. Non-trivial: every history')
G = 'cryptopy.fmath.galoisfield:'


def field(p, q):
    p.call(G + 'GFp', q, d='F', q=1)


def elem(p, name, v):
    p.call('call', V('F'), v, d=name, q=1)


def binops(p, q, a, b, left, right, rng=None):
    """ left / right: what is passed: V or int, their values a and b """
    p.op('add', left, right, expect=el((a + b) % q, q))
    p.op('sub', left, right, expect=el((a - b) % q, q))
    p.op('mul', left, right, expect=el(a * b % q, q))
    p.op('div', left, right, expect=refused if b % q == 0 else el(a * pow(b, -1, q) % q, q))
    p.op('eq', left, right, expect=truth(a == b))
    p.op('ne', left, right, expect=truth(a != b))


def power(p, q, a, e, left):
    want = refused if e < 0 and a % q == 0 else el(pow(a, e, q), q)
    p.op('xor', left, e, expect=want)
    p.op('pow', left, e, expect=want)


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for q in (2, 3, 5, 7, 11, 13) + ((17, 19, 23) if big else ()):
        for a in range(q):
            p = Prog('small fields, all pairs')
            field(p, q)
            elem(p, 'a', a)
            for b in range(q):
                elem(p, 'b', b)
                binops(p, q, a, b, V('a'), V('b'))
                p.op('xor', V('a'), V('b'), expect=el(pow(a, b, q), q))
                p.op('pow', V('a'), V('b'), expect=el(pow(a, b, q), q))
            for n in range(-q - 1, 2 * q + 2):
                # a plain integer equals an element when it is its value
                p.op('add', V('a'), n, expect=el((a + n) % q, q))
                p.op('add', n, V('a'), expect=el((a + n) % q, q))
                p.op('sub', V('a'), n, expect=el((a - n) % q, q))
                p.op('sub', n, V('a'), expect=el((n - a) % q, q))
                p.op('mul', V('a'), n, expect=el(a * n % q, q))
                p.op('mul', n, V('a'), expect=el(a * n % q, q))
                p.op('div', V('a'), n, expect=refused if n % q == 0 else el(a * pow(n, -1, q) % q, q))
                p.op('div', n, V('a'), expect=refused if a == 0 else el(n * pow(a, -1, q) % q, q))
                power(p, q, a, n, V('a'))
                p.op('xor', n, V('a'), expect=el(pow(n, a, q), q))
                if 0 <= n < q:
                    p.op('eq', V('a'), n, expect=truth(a == n))
                    p.op('ne', V('a'), n, expect=truth(a != n))
                p.on('F', 'is_element', n, expect=truth(0 <= n < q))
                p.call('call', V('F'), n, expect=el(n % q, q))
                p.on('F', 'inverse', n, expect=refused if n % q == 0 else eq(pow(n, -1, q)))
            p.op('neg', V('a'), expect=el(-a % q, q))
            p.op('int', V('a'), expect=eq(a))
            p.op('str', V('a'), expect=eq(b'%d' % a))
            out.append(p)
    qs = sorted(set(c['p'] for c in table.PARAMS.values())) + [2 ** 31 - 1, 2 ** 61 - 1, 65537, 257, 2 ** 127 - 1]
    qs += [nt.next_prime(rng.getrandbits(b)) for b in (8, 16, 31, 32, 33, 62, 63, 64, 65, 128, 192, 400)]
    for q in qs:
        for _ in range(1 if not big else 6):
            p = Prog('large fields')
            field(p, q)
            vals = [0, 1, 2 % q, q - 1, q // 2, rng.randrange(q), rng.randrange(q)]
            for i in range(8):
                a, b = rng.choice(vals), rng.choice(vals)
                elem(p, 'a', a)
                elem(p, 'b', b)
                binops(p, q, a, b, V('a'), V('b'))
                n = rng.choice((0, 1, -1, q, -q, q + 1, 2 * q - 1, rng.randrange(q), -rng.randrange(q), rng.getrandbits(600), -rng.getrandbits(600), rng.getrandbits(5000), -rng.getrandbits(2100)))
                m = rng.choice((n, L(n)))
                p.op('add', V('a'), m, expect=el((a + n) % q, q))
                p.op('add', m, V('a'), expect=el((a + n) % q, q))
                p.op('sub', V('a'), m, expect=el((a - n) % q, q))
                p.op('sub', m, V('a'), expect=el((n - a) % q, q))
                p.op('mul', V('a'), m, expect=el(a * n % q, q))
                p.op('mul', m, V('a'), expect=el(a * n % q, q))
                p.op('div', V('a'), m, expect=refused if n % q == 0 else el(a * pow(n, -1, q) % q, q))
                p.op('div', m, V('a'), expect=refused if a == 0 else el(n * pow(a, -1, q) % q, q))
                power(p, q, a, rng.choice((0, 1, 2, 3, -1, -2, q - 1, q - 2, q, 1 - q, rng.randrange(q), -rng.randrange(q))), V('a'))
                p.op('neg', V('a'), expect=el(-a % q, q))
                p.op('int', V('a'), expect=eq(a))
                p.op('str', V('a'), expect=eq(b'%d' % a))
                p.on('F', 'is_element', n, expect=truth(0 <= n < q))
            # operands come out of it unchanged
            elem(p, 'c', vals[5])
            p.op('mul', V('c'), V('c'), d='s')
            p.op('sub', V('s'), V('c'), q=1)
            p.op('neg', V('c'), q=1)
            p.op('xor', V('c'), 5, q=1)
            p.op('int', V('c'), expect=eq(vals[5]))
            p.op('int', V('s'), expect=eq(vals[5] ** 2 % q))
            out.append(p)
    # augmented assignment: a name of an element changes, not the element
    for _ in range(10 if not big else 100):
        p = Prog('augmented assignment')
        q = rng.choice(qs + [5, 7, 11, 13])
        field(p, q)
        for _ in range(10):
            a, b = rng.randrange(q), rng.choice((0, 1, rng.randrange(q)))
            elem(p, 'a', a)
            elem(p, 'b', b)
            o = rng.choice(('iadd', 'isub', 'imul', 'idiv', 'ixor', 'ipow'))
            y = rng.choice((V('b'), b)) if o not in ('ixor', 'ipow') or b.bit_length() > 60 else b
            if o == 'idiv' and not b:
                continue
            if o in ('ixor', 'ipow') and b.bit_length() > 600:
                continue
            want = (a + b if o == 'iadd' else a - b if o == 'isub' else a * b if o == 'imul' else a * pow(b, -1, q) if o == 'idiv' else pow(a, b, q)) % q
            p.op(o, V('a'), y, d='c', expect=el(want, q))
            p.op('int', V('a'), expect=eq(a))
            p.op('int', V('b'), expect=eq(b))
            p.op('iadd', V('c'), V('a'), q=1)
            p.op('int', V('a'), expect=eq(a))
        out.append(p)
    # fields and elements nearly alike
    for _ in range(6 if not big else 60):
        p = Prog('elements nearly alike', cost=2)
        fs = gen.alike_primes(rng)
        lo = min(fs)
        for i, q in enumerate(fs):
            p.call(G + 'GFp', q, d='F%d' % i, q=1)
        vals = [rng.randrange(lo) for _ in range(3)]
        vals += [gen.alike(rng, v, lo) for v in vals for _ in 'ab']
        for _ in range(40):
            i = rng.randrange(len(fs))
            a, b = rng.choice(vals), rng.choice(vals)
            p.call('call', V('F%d' % i), a, d='a', q=1)
            p.call('call', V('F%d' % i), b, d='b', q=1)
            binops(p, fs[i], a, b, V('a'), V('b'))
            if b:
                p.on('F%d' % i, 'inverse', b, expect=eq(pow(b, -1, fs[i])))
            power(p, fs[i], a, rng.choice((-1, 2, b, gen.alike(rng, b, lo))), V('a'))
        out.append(p)
    # several fields alive at once, the same values in each
    for _ in range(20 if not big else 200):
        p = Prog('several fields by turns', cost=2)
        fs = [rng.choice(qs + [2, 3, 5, 7, 11, 13]) for _ in range(3)]
        fs.append(fs[0])
        lo = min(fs)
        a, b = rng.randrange(lo), rng.randrange(lo)
        for i, q in enumerate(fs):
            p.call(G + 'GFp', q, d='F%d' % i, q=1)
        for i, q in enumerate(fs):
            p.call('call', V('F%d' % i), a, d='a%d' % i, q=1)
            p.call('call', V('F%d' % i), b, d='b%d' % i, q=1)
        n = rng.choice((lo, lo - 1, -1, rng.getrandbits(90), -rng.getrandbits(40)))
        for i in rng.sample(range(4), 4) * 2:
            q = fs[i]
            binops(p, q, a, b, V('a%d' % i), V('b%d' % i))
            power(p, q, a, n, V('a%d' % i)) if n.bit_length() < 700 else None
            p.on('F%d' % i, 'is_element', n, expect=truth(0 <= n < q))
            p.on('F%d' % i, 'inverse', n, expect=refused if n % q == 0 else eq(pow(n, -1, q)))
            p.op('neg', V('a%d' % i), expect=el(-a % q, q))
            p.op('mul', n, V('a%d' % i), expect=el(a * n % q, q))
            p.op('div', n, V('a%d' % i), expect=refused if a == 0 else el(n * pow(a, -1, q) % q, q))
        out.append(p)
    # random expressions, held against the same expression over the integers mod q
    for _ in range(150 if not big else 2000):
        q = rng.choice(qs + [2, 3, 5, 7, 11])
        p = Prog('chained expressions')
        field(p, q)
        vals = []
        for i in range(3):
            v = rng.choice((0, 1, q - 1, rng.randrange(q)))
            elem(p, 'v%d' % i, v)
            vals.append(v)
        for i in range(3, 18):
            j = rng.randrange(len(vals))
            a = vals[j]
            if rng.randrange(3):
                k = rng.randrange(len(vals))
                b, y = vals[k], V('v%d' % k)
            else:
                b = y = rng.choice((0, 1, 2, 3, -1, rng.getrandbits(70), -rng.getrandbits(70)))
            x, d = V('v%d' % j), 'v%d' % len(vals)
            o = rng.choice(('add', 'sub', 'mul', 'div', 'neg', 'pow', 'xor', 'rsub', 'rdiv'))
            if o == 'neg':
                p.op('neg', x, d=d, expect=el(-a % q, q))
                vals.append(-a % q)
            elif o in ('pow', 'xor'):
                e = rng.randrange(0, 40)
                p.op(o, x, e, d=d, expect=el(pow(a, e, q), q))
                vals.append(pow(a, e, q))
            elif o == 'add':
                p.op('add', x, y, d=d, expect=el((a + b) % q, q))
                vals.append((a + b) % q)
            elif o == 'sub':
                p.op('sub', x, y, d=d, expect=el((a - b) % q, q))
                vals.append((a - b) % q)
            elif o == 'rsub':
                p.op('sub', y, x, d=d, expect=el((b - a) % q, q))
                vals.append((b - a) % q)
            elif o == 'mul':
                p.op('mul', x, y, d=d, expect=el(a * b % q, q))
                vals.append(a * b % q)
            elif o == 'div' and b % q:
                p.op('div', x, y, d=d, expect=el(a * pow(b, -1, q) % q, q))
                vals.append(a * pow(b, -1, q) % q)
            elif o == 'rdiv' and a:
                p.op('div', y, x, d=d, expect=el(b * pow(a, -1, q) % q, q))
                vals.append(b * pow(a, -1, q) % q)
        out.append(p)
    return [('main', out, {})]
