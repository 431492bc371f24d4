from ..prog import Prog, V, eq, never, refused, eq_or_refused
from ..oracle import sym
from .. import gen

CH = 'cryptopy.cipher.chacha_poly:ChaCha'
RULE = ('one history = a sequence of encrypt/decrypt calls on one or several live stream cipher objects, including interleaved '
        'objects, empty messages, runs that end exactly at, or would pass, block 2^32, and constructions with a wrong key, '
        'nonce or counter; objects that choose their nonce, under system and under scripted entropy (every octet of it that counts); the monitor keeps the number of blocks each object has used and expects every call to use the '
        'next unused blocks of its own key stream. Non-trivial: more than one call on an object, or a refusal is expected')


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for rep in range(60 if not big else 900):
        p = Prog('interleaved streams')
        objs = []
        shared = (gen.octets(rng, 32), gen.octets(rng, 12))
        for i in range(rng.randrange(1, 5)):
            key, nonce = shared if rng.randrange(3) == 0 else (gen.octets(rng, 32), gen.octets(rng, 12))
            if rng.randrange(4) == 0:
                key = shared[0]
            c = rng.choice((0, 1, rng.getrandbits(16), rng.getrandbits(32) // 2, 2 ** 31 - 2))
            objs.append([key, nonce, c])
            p.new('c%d' % i, CH, key, c, nonce)
        for step in range(rng.randrange(4, 14)):
            i = rng.randrange(len(objs))
            o = objs[i]
            n = rng.choice((0, 1, 63, 64, 65, 127, 128, 129, rng.randrange(300), rng.randrange(100)))
            data = gen.octets(rng, n)
            p.on('c%d' % i, rng.choice(('encrypt', 'encrypt', 'decrypt')), data,
                 expect=eq(sym.chacha(o[0], o[2], o[1], data)))
            o[2] += (n + 63) // 64
        out.append(p)
    for rep in range(3 if not big else 20):
        # long lives
        p = Prog('many calls on one object', cost=6)
        key, nonce, c = gen.octets(rng, 32), gen.octets(rng, 12), rng.choice((0, 1, 250, 65500, 2 ** 24 - 100))
        p.new('c', CH, key, c, nonce)
        for step in range(300 if not big else 2000):
            n = rng.choice((0, 1, 2, 8, 16, 20, 63, 64, 65, rng.randrange(100)))
            data = gen.octets(rng, n)
            p.on('c', rng.choice(('encrypt', 'decrypt')), data, expect=eq(sym.chacha(key, c, nonce, data)))
            c += (n + 63) // 64
        out.append(p)
    for rep in range(24 if not big else 300):
        # the end of the key stream
        p = Prog('end of the key stream')
        key, nonce = gen.octets(rng, 32), gen.octets(rng, 12)
        left = rng.randrange(0, 5)
        c = 2 ** 32 - left
        if c == 2 ** 32:
            p.new('c', CH, key, 2 ** 32 - 1, nonce)
            p.on('c', 'encrypt', b'x' * rng.randrange(1, 65), expect=None)
        else:
            p.new('c', CH, key, c, nonce)
        exhausted = False
        for step in range(rng.randrange(2, 7)):
            n = rng.choice((0, 1, 64, 65, 128, 200, 64 * left, 64 * left + 1, max(0, 64 * left - 1), 64 * left + 64))
            need = (n + 63) // 64
            data = gen.octets(rng, n)
            if need > left:
                p.on('c', 'encrypt', data, expect=refused)
                exhausted = True
            else:
                want = sym.chacha(key, 2 ** 32 - left, nonce, data)
                # after a refusal an object may decline to go on, but may not go on wrongly
                p.on('c', rng.choice(('encrypt', 'decrypt')), data, expect=eq_or_refused(want) if exhausted else eq(want))
                if exhausted and need:
                    break
                left -= need
        out.append(p)
    for rep in range(2 if not big else 10):
        p = Prog('wrong parameters')
        n = 0
        for kl in list(range(0, 32)) + list(range(33, 70)):
            p.new('k%d' % kl, CH, rng.randbytes(kl), 0, bytes(12), expect=None)
            p.on('k%d' % kl, 'encrypt', b'abc', expect=never)
        for nl in list(range(0, 12)) + list(range(13, 40)):
            p.new('n%d' % nl, CH, rng.randbytes(32), 0, rng.randbytes(nl), expect=None)
            p.on('n%d' % nl, 'encrypt', b'abc', expect=never)
        for c in (-1, -2, -2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 64, -2 ** 32, -2 ** 64, rng.getrandbits(40) + 2 ** 32):
            n += 1
            p.new('b%d' % n, CH, rng.randbytes(32), c, bytes(12), expect=None)
            p.on('b%d' % n, 'encrypt', b'abc', expect=never)
        out.append(p)
    for rep in range(12 if not big else 150):
        # an object given a new key, counter or nonce; a refused one leaves it as it was
        p = Prog('re-keyed objects')
        key, nonce, c = gen.octets(rng, 32), gen.octets(rng, 12), rng.getrandbits(20)
        p.new('c', CH, key, c, nonce)
        for step in range(rng.randrange(3, 10)):
            what = rng.randrange(5)
            if what == 0:
                key, nonce, c = gen.octets(rng, 32), gen.octets(rng, 12), rng.choice((0, 1, c, rng.getrandbits(31)))
                p.on('c', 'initialize', key, c, nonce, expect=None)
            elif what == 1:
                k2, n2, c2 = rng.randbytes(32), rng.randbytes(12), rng.getrandbits(31)
                bad = rng.randrange(3)
                if bad == 0:
                    k2 = rng.randbytes(rng.choice((0, 16, 31, 33, 64)))
                elif bad == 1:
                    n2 = rng.randbytes(rng.choice((0, 8, 11, 13, 24)))
                else:
                    c2 = rng.choice((-1, 2 ** 32, 2 ** 33))
                p.on('c', 'initialize', k2, c2, n2, expect=refused)
            data = gen.octets(rng, rng.choice((0, 1, 63, 64, 65, rng.randrange(200))))
            p.on('c', rng.choice(('encrypt', 'decrypt')), data, expect=eq(sym.chacha(key, c, nonce, data)))
            c += (len(data) + 63) // 64
        out.append(p)
    for rep in range(4):
        # no nonce given: every object gets a fresh one
        p = Prog('nonce chosen by the cipher')
        key = gen.octets(rng, 32)
        for i in range(60):
            p.new('c', CH, key)
            p.on('c', 'encrypt', bytes(64))
        p.keep = True

        def fresh(res):
            s = [r for r in res if isinstance(r, bytes)]
            if len(s) != 60 or any(len(x) != 64 for x in s):
                return 'an object with its own nonce did not encrypt 64 octets'
            if len(set(s)) != len(s):
                return 'two objects made without a nonce used the same key stream'
        p.judge(fresh)
        out.append(p)
    for rep in range(3 if not big else 10):
        # which octets of the entropy source have a say in the nonce
        p = Prog('entropy of the nonce')
        key, s = gen.octets(rng, 32), rng.randbytes(2000)
        for i in [None, None] + list(range(64)):
            p.stream(s if i is None else s[:i] + bytes([s[i] ^ 0xff]) + s[i + 1:])
            p.new('c', CH, key)
            p.on('c', 'encrypt', bytes(64))
        p.stream(b'')

        def entropy(res):
            s = [r for r in res if isinstance(r, bytes)]
            if len(s) == 66 and s[0] == s[1]:
                n = sum(x != s[0] for x in s[2:])
                if 0 < n < 12:
                    return 'only %d octets of entropy have a say in the 12 octets of the nonce' % n
        p.judge(entropy)
        out.append(p)
    # round trips without a given nonce through one object's own stream are impossible; through equal ones they work
    for rep in range(20 if not big else 200):
        p = Prog('sender and receiver')
        key, nonce, c = gen.octets(rng, 32), gen.octets(rng, 12), rng.getrandbits(20)
        p.new('s', CH, key, c, nonce)
        p.new('r', CH, key, c, nonce)
        for i in range(rng.randrange(1, 6)):
            m = gen.octets(rng, rng.choice((rng.randrange(1, 64), 64, rng.randrange(65, 200))))
            p.call('.encrypt', m, o='s', d='x%d' % i)
            p.on('r', 'decrypt', V('x%d' % i), expect=eq(m))
        out.append(p)
    return [('main', out, {})]


def cross(name, progs, kept):
    """ key streams under cipher-chosen nonces, across processes """
    seen = {}
    for i, res in sorted(kept.items()):
        for r in res:
            if isinstance(r, bytes):
                if r in seen and seen[r] != i:
                    return [(i, 'the key stream of another process came back: the nonce is not random')]
                seen[r] = i
    return []
