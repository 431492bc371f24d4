from ..prog import Prog, V, eq, refused, sealed, never
from ..oracle import sym
from .. import gen

MOD = 'cryptopy.cipher.aes_siv:'
RULE = ('one history = an AES-SIV object (or the functions below it) encrypting with 0..6 associated strings of every length '
        'class and opening genuine and hostile inputs: one bit changed in every octet, truncations, associated strings '
        'reordered, merged, split, dropped, added, look-alikes of the synthetic IV under digests and partial comparison. Plaintexts are also solved for so that the synthetic IV takes chosen values '
        '(leading zero octets, bits 31 and 63 set, counter about to carry). Non-trivial: output compared octet for octet with '
        'the RFC 5297 oracle, or a refusal demanded; the caller\'s list of associated strings must come out unchanged')
ASSUMPTIONS = ['the AES block function comes from the Java runtime; the oracle has its own AES']


def use(p, rng, key, i=0):
    if rng.randrange(2):
        p.new('s%d' % i, MOD + 'AES_SIV', key)
        return (lambda pt, ads, **kw: p.on('s%d' % i, 'encrypt', pt, ads, **kw),
                lambda ct, ads, **kw: p.on('s%d' % i, 'decrypt', ct, ads, **kw))
    return (lambda pt, ads, **kw: p.call(MOD + 'siv_encrypt', key, pt, ads, **kw),
            lambda ct, ads, **kw: p.call(MOD + 'siv_decrypt', key, ct, ads, **kw))


def somekey(rng):
    n = rng.choice((16, 16, 24, 32))
    return gen.octets(rng, n) + gen.octets(rng, n)


def ad_variants(rng, ads):
    yield ads + [b'']
    yield [b''] + ads
    yield ads + [b'x']
    if ads:
        yield ads[:-1]
        yield ads[1:]
        yield []
        yield ads + [ads[-1]]
        for i in range(len(ads)):
            for b in gen.flips(ads[i], rng, 4):
                yield ads[:i] + [b] + ads[i + 1:]
            yield ads[:i] + [ads[i] + b'\0'] + ads[i + 1:]
            yield ads[:i] + [ads[i] + b'\x80'] + ads[i + 1:]
            yield ads[:i] + [ads[i][:-1]] + ads[i + 1:]
    if len(ads) > 1:
        yield ads[::-1]
        yield [b''.join(ads)]
        yield [ads[0] + ads[1]] + ads[2:]
        yield ads[1:2] + ads[:1] + ads[2:]


IVS = ['00' * 16, 'ff' * 16, '0000000000000000000000000000007f', '0000000000000000000000007fffffff',
       '000000000000000000000000ffffffff', '00000000000000007fffffff7ffffffe', '0000000000000000ffffffffffffffff',
       'ffffffffffffffffffffffffffffffff', '01' + 'ff' * 15, '80' + '00' * 15, '000000000000000080000000' + '80000000',
       'ffffffffffffffff7fffffff7fffffff', '00ff00ff00ff00ff00ff00ff7fffffff', 'aaaaaaaaaaaaaaaaffffffff7fffffff',
       '0000000000000001' + 'ffffffffffffffff', '123456789abcdef0' + 'ffffffff00000000', '000000000000000000000000000000ff',
       '0000000000000000000000000000ffff', '00000000000000000000000000ffffff', '5555555555555555' + '80000000000000ff',
       '0123456789abcdef' + '7fffffff7ffffffd', '0123456789abcdef' + '8000000080000000']


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    work = [(n, rng.randrange(0, 7)) for n in sorted(set(range(0, 70)) | set(gen.near(16, 200, 1)))]
    work += [(rng.randrange(300), rng.randrange(7)) for _ in range(60 if not big else 2500)]
    rng.shuffle(work)
    for part in gen.chunks(work, 10):
        p = Prog('lengths and numbers of associated strings')
        key = somekey(rng)
        e, d = use(p, rng, key)
        for j, (n, k) in enumerate(part):
            pt = gen.octets(rng, n)
            ads = [gen.octets(rng, rng.choice((0, 1, 15, 16, 17, 32, rng.randrange(60)))) for _ in range(k)]
            ct = sym.siv_encrypt(key, pt, ads)
            e(pt, ads, expect=eq(ct), d='x%d' % j)
            d(V('x%d' % j), ads, expect=eq(pt))
        out.append(p)
    ivs = [bytes.fromhex(x) for x in IVS] + [gen.octets(rng, 16) for _ in range(10 if not big else 300)]
    for part in gen.chunks(ivs, 4):
        p = Prog('chosen synthetic IVs')
        key = somekey(rng)
        e, d = use(p, rng, key)
        for iv in part:
            for blocks in (0, 1, 3):
                ads = [gen.octets(rng, rng.randrange(40)) for _ in range(rng.randrange(3))]
                pt = sym.siv_craft(key, ads, rng.randbytes(16 * blocks), iv)
                ct = sym.siv_encrypt(key, pt, ads)
                assert ct[:16] == iv
                e(pt, ads, expect=eq(ct))
                d(ct, ads, expect=eq(pt))
        out.append(p)
    # the counter carries out of its octets far into a message
    for x in ('0123456789abcdef' + '01020304' + '00000000', 'ff' * 8 + '7fffffff' + '7fffffff', '00' * 12 + '0000ff80', 'aa' * 13 + 'ffff80',
              '5555555555555555' + '0000ffff' + '7fff' + 'ff80', '33' * 14 + '0300', '00' * 14 + 'ff00') + (('00' * 16, 'ff' * 16) if big else ()):
        p = Prog('long messages under chosen synthetic IVs', cost=4)
        key = somekey(rng)
        e, d = use(p, rng, key)
        iv = bytes.fromhex(x)
        ads = [gen.octets(rng, rng.randrange(40)) for _ in range(rng.randrange(3))]
        pt = sym.siv_craft(key, ads, rng.randbytes(16 * rng.randrange(260, 300)), iv)
        ct = sym.siv_encrypt(key, pt, ads)
        assert ct[:16] == iv
        e(pt, ads, expect=eq(ct))
        d(ct, ads, expect=eq(pt))
        out.append(p)
    shapes = [(0, 0), (0, 1), (1, 0), (14, 1), (16, 2), (17, 0), (33, 3), (47, 2), (64, 1)]
    shapes += [(rng.randrange(90), rng.randrange(5)) for _ in range(9 if not big else 200)]
    for n, k in shapes:
        p = Prog('hostile inputs', cost=2)
        key = somekey(rng)
        e, d = use(p, rng, key)
        pt = gen.octets(rng, n)
        ads = [gen.octets(rng, rng.randrange(0, 35)) for _ in range(k)]
        ct = sym.siv_encrypt(key, pt, ads)
        d(ct, ads, expect=eq(pt))

        def bad(c, a):
            if sym.siv_decrypt(key, c, a) is None:
                d(c, a, expect=sealed(pt))
        for b in gen.flips(ct, rng, 60):
            bad(b, ads)
        for i in range(0, len(ct)):
            if i < 36 or i > len(ct) - 20:
                bad(ct[:i], ads)
                bad(ct[i + 1:], ads)
        for x in (b'\0', b'\x80', bytes(16), b'\xff'):
            bad(ct + x, ads)
            bad(x + ct, ads)
            bad(ct[:16] + x + ct[16:], ads)
        bad(bytes(16) + ct[16:], ads)
        # right tag octets up to some point
        for cut in (1, 4, 8, 12, 15):
            bad(ct[:cut] + bytes(y ^ 0x5a for y in ct[cut:16]) + ct[16:], ads)
            bad(bytes(y ^ 0x5a for y in ct[:cut]) + ct[cut:], ads)
        for t in gen.look_alikes(rng, ct[:16])[::1 if n < 2 else 6]:
            bad(t + ct[16:], ads)
        for a in ad_variants(rng, ads):
            bad(ct, a)
        bad(ct, ads + [pt])
        if ads:
            bad(sym.siv_encrypt(key, pt, ads[:-1]), ads)
        d(ct, ads, expect=eq(pt))
        for t in range(4):
            k2 = bytearray(key)
            k2[rng.randrange(len(key))] ^= 1 << rng.randrange(8)
            if sym.siv_decrypt(bytes(k2), ct, ads) is None:
                p.call(MOD + 'siv_decrypt', bytes(k2), ct, ads, expect=refused)
        out.append(p)
    p = Prog('keys of a wrong size')
    for n in list(range(0, 32)) + list(range(33, 48)) + list(range(49, 64)) + [65, 66, 80, 96, 128]:
        key, pt, ads = rng.randbytes(n), rng.randbytes(rng.randrange(40)), [b'ad'] * rng.randrange(3)
        p.call(MOD + 'siv_encrypt', key, pt, ads, expect=refused)
        p.call(MOD + 'siv_decrypt', key, rng.randbytes(40), ads, expect=refused)
        p.new('w', MOD + 'AES_SIV', key, expect=None)
        p.on('w', 'encrypt', pt, ads, expect=never)
    out.append(p)
    for rep in range(6 if not big else 80):
        p = Prog('related keys and inputs')
        n = rng.choice((16, 16, 24, 32))
        a, b = gen.octets(rng, n), gen.octets(rng, n)
        keys = [a + b, b + a, a + a, b + b, a + b[:-1] + bytes([b[-1] ^ 1]), a[:-1] + bytes([a[-1] ^ 1]) + b]
        if n == 32:
            keys += [a, b, (a + b)[:48], a[:16] + b[:16]]
        keys.append(gen.flip(rng, a + b))
        m, s = gen.octets(rng, 1 + (gen.size(rng, 2000) if len(out) % 3 == 0 else rng.randrange(60))), gen.octets(rng, 1 + (gen.size(rng, 800) if len(out) % 4 == 0 else rng.randrange(30)))
        mf, sf = gen.flip(rng, m), gen.flip(rng, s)
        for i in range(14):
            key, pt = rng.choice(keys), rng.choice((m, mf, m[:-1], m[::-1], s, b''))
            ads = rng.choice(([], [s], [s, m], [m, s], [s, b''], [b'', s], [s, s], [m], [sf], [s, sf], [sf, m], [s, mf]))
            ct = sym.siv_encrypt(key, pt, ads)
            p.call(MOD + 'siv_encrypt', key, pt, ads, expect=eq(ct))
            p.call(MOD + 'siv_decrypt', key, ct, ads, expect=eq(pt))
        out.append(p)
    for n, k, al in ((1000, 2, 40), (5000, 1, 3000), (33000, 1, 10), (65600, 0, 0), (20, 1, 66000), (30, 40, 5), (10, 100, 3), (16, 126, 1), (0, 126, 0)) + (
            ((140000, 2, 100), (100, 3, 140000)) if big else ()):
        p = Prog('long inputs', cost=2 + (n + al * k) / 8000.)
        key = somekey(rng)
        e, d = use(p, rng, key)
        pt, ads = rng.randbytes(n), [rng.randbytes(al) for _ in range(k)]
        ct = sym.siv_encrypt(key, pt, ads)
        e(pt, ads, expect=eq(ct))
        d(ct, ads, expect=eq(pt))
        for v in sorted({len(ct) - 1, len(ct) // 2, 16, 4100, 16400, 32800, 65550}):
            if v < len(ct):
                d(ct[:v] + bytes([ct[v] ^ 1]) + ct[v + 1:], ads, expect=refused)
        if k and al:
            for i in sorted({0, k // 2, k - 1}):
                for v in sorted({al - 1, al // 2, 1000, 65536}):
                    if v < al:
                        w = ads[i][:v] + bytes([ads[i][v] ^ 0x40]) + ads[i][v + 1:]
                        d(ct, ads[:i] + [w] + ads[i + 1:], expect=refused)
            if k > 1:
                d(ct, ads[:-1], expect=refused)
                d(ct, ads[1:], expect=refused)
        out.append(p)
    for rep in range(8 if not big else 150):
        p = Prog('vector input')
        for i in range(10):
            key = gen.octets(rng, rng.choice((16, 24, 32)))
            v = [gen.octets(rng, rng.randrange(0, 50)) for _ in range(rng.randrange(0, 6))]
            p.call(MOD + 's2v', key, v, expect=eq(sym.s2v(key, v)))
        for i in range(10):
            b = gen.octets(rng, 16)
            p.call(MOD + 'dbl', b, expect=eq(sym.dbl(b)))
        out.append(p)
    for rep in range(5 if not big else 60):
        p = Prog('objects do not share keys')
        keys = [somekey(rng) for _ in range(3)]
        for i, k in enumerate(keys):
            p.new('o%d' % i, MOD + 'AES_SIV', k)
        for j in range(9):
            i = rng.randrange(3)
            pt, ads = gen.octets(rng, rng.randrange(50)), [gen.octets(rng, rng.randrange(20)) for _ in range(rng.randrange(3))]
            ct = sym.siv_encrypt(keys[i], pt, ads)
            p.on('o%d' % i, 'encrypt', pt, ads, expect=eq(ct))
            p.on('o%d' % i, 'decrypt', ct, ads, expect=eq(pt))
            o = (i + 1) % 3
            if sym.siv_decrypt(keys[o], ct, ads) is None:
                p.on('o%d' % o, 'decrypt', ct, ads, expect=refused)
        out.append(p)
    return [('main', out, {})]
