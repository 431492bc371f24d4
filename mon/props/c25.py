from ..prog import Prog, V, S, eq, refused, pred
from ..oracle import misc
from .. import gen

RULE = ('one history = one Michael or TKIP_MIC object (versions D3 and D2) under one or several keys, hashing messages of every length '
        'modulo 4, extreme words that drive the rotations and carries, sums at the edge of a word in each step, all priorities; wrong key, address and priority sizes refused; '
        'update, digest and final refused. Non-trivial: every history')
MI = 'cryptopy.hash.michael:Michael'
TK = 'cryptopy.hash.tkip_mic:TKIP_MIC'


def tkip(key, sa, da, pri, data, version):
    return misc.michael(key, da + sa + (bytes([pri, 0, 0, 0]) if version == 'D3' else b'') + data)


M32 = 0xffffffff
EDGES = (0, 1, M32, M32 - 1, 1 << 31, (1 << 31) - 1)


def rol(x, n):
    return (x << n | x >> (32 - n)) & M32


MIX = (lambda l: rol(l, 17), lambda l: (l & 0xff00ff00) >> 8 | (l & 0xff00ff) << 8, lambda l: rol(l, 3), lambda l: rol(l, 30))


def back(l, r, step):
    """ undoes the block function from the point before the addition of the given step """
    for f in MIX[step::-1]:
        r ^= f(l)
        if f is not MIX[0]:
            l = (l - r) & M32
    return l, r


def edge_key(rng, data, at, step, total):
    """ a key for which the sum in the given step of the given block of the padded message comes to the total mod 2^32 """
    m = data + b'\x5a' + bytes(7 - len(data) % 4)
    w = [int.from_bytes(m[i:i + 4], 'little') for i in range(0, 4 * (at + 1), 4)]
    l = rng.choice((rng.getrandbits(32), gen.word32(rng)))
    l, r = back(l, (total - l) & M32, step)
    for x in w[:0:-1]:
        l ^= x
        l, r = back((l - r) & M32, r, 3)
    return (l ^ w[0] | r << 32).to_bytes(8, 'little')


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 150 if not big else 700):
        p = Prog('every message size')
        for _ in range(3):
            key, data = gen.octets(rng, 8), gen.octets(rng, n)
            p.new('m', MI, key)
            want = misc.michael(key, data)
            p.call('call', V('m'), data, expect=eq(want))
            p.on('m', 'hash', data, expect=eq(want))
        out.append(p)
    # chosen words: single bits and runs in key and message
    for b in range(64):
        p = Prog('single bits')
        key = (1 << b).to_bytes(8, 'big')
        p.new('m', MI, key)
        for data in (b'', key, bytes(4), b'\xff' * 4, (1 << b).to_bytes(8, 'little')):
            p.call('call', V('m'), data, expect=eq(misc.michael(key, data)))
        out.append(p)
    # sums at the edge of a word in each step of the block function, for any message word
    for _ in range(4 if not big else 40):
        p = Prog('sums at the edge of a word')
        for step in range(4):
            for total in EDGES:
                data = gen.octets(rng, rng.randrange(0, 14))
                last = len(data) // 4 + 1
                key = edge_key(rng, data, rng.choice((0, last, last, rng.randrange(last + 1))), step, total)
                p.new('m', MI, key)
                p.call('call', V('m'), data, expect=eq(misc.michael(key, data)))
                if rng.randrange(3) == 0:
                    p.new('t', TK, key)
                    da, sa, x = gen.octets(rng, 6), gen.octets(rng, 6), gen.octets(rng, rng.randrange(0, 9))
                    key = edge_key(rng, da + sa + b'\3\0\0\0' + x, len(x) // 4 + 5, step, total)
                    p.on('t', 'setKey', key)
                    p.on('t', 'hash', sa, da, 3, x, expect=eq(tkip(key, sa, da, 3, x, 'D3')))
        out.append(p)
    # the published chain: each MIC is the next key
    p = Prog('published chain')
    key = bytes(8)
    for m in (b'', b'M', b'Mi', b'Mic', b'Mich', b'Michael'):
        p.new('m', MI, key)
        want = misc.michael(key, m)
        p.call('call', V('m'), m, expect=eq(want))
        key = want
    p.judge(lambda r: None if r[-1] == bytes.fromhex('0a942b124ecaa546') else 'the published chain does not end in 0a942b124ecaa546')
    out.append(p)
    for _ in range(60 if not big else 600):
        p = Prog('several keys, one object')
        p.new('m', MI, *([] if rng.randrange(3) == 0 else [gen.octets(rng, 8)]))
        for _ in range(8):
            key = gen.octets(rng, 8)
            p.on('m', 'setKey', key)
            for _ in range(rng.randrange(1, 4)):
                data = gen.octets(rng, rng.randrange(0, 80))
                p.call('call', V('m'), data, expect=eq(misc.michael(key, data)))
            if rng.randrange(3) == 0:
                p.on('m', 'setKey', gen.octets(rng, rng.choice((0, 7, 9, 16))), expect=refused)
                p.call('call', V('m'), data, expect=eq(misc.michael(key, data)))
        out.append(p)
    p = Prog('refusals')
    for n in (0, 1, 7, 9, 16):
        p.call(MI, bytes(n), expect=refused)
        p.call(TK, bytes(n), expect=refused)
    p.new('m', MI, bytes(8))
    p.on('m', 'update', b'abc', expect=refused)
    p.on('m', 'digest', expect=refused)
    p.on('m', 'final', b'abc', expect=refused)
    p.new('n', MI)
    p.call('call', V('n'), b'abc', expect=refused)
    for i, v in enumerate(('D1', 'D4', 'D', 'd2', 'D2.0', 'D22', 'D3 ', 'D30', '2', '')):
        p.new('x%d' % i, TK, bytes(8), S(v))
        p.on('x%d' % i, 'hash', bytes(6), bytes(6), 0, b'abc', expect=refused)
    p.new('t', TK, bytes(8))
    for pri in (-1, 16, 17, 255, 256, 1 << 40):
        p.on('t', 'hash', bytes(6), bytes(6), pri, b'abc', expect=refused)
    for a, b in ((5, 6), (6, 5), (7, 6), (6, 7), (0, 6), (6, 0), (12, 0), (5, 7)):
        p.on('t', 'hash', bytes(a), bytes(b), 0, b'abc', expect=refused)
    p.on('t', 'hash', bytes(6), bytes(6), 0, b'abc', expect=eq(tkip(bytes(8), bytes(6), bytes(6), 0, b'abc', 'D3')))
    out.append(p)
    for version in (None, 'D3', 'D2'):
        for pri in range(16):
            p = Prog('TKIP MIC, every priority')
            key = gen.octets(rng, 8)
            p.new('t', TK, key, *([] if version is None else [S(version)]))
            for _ in range(6 if not big else 40):
                if rng.randrange(3) == 0:
                    key = gen.octets(rng, 8)
                    p.on('t', 'setKey', key)
                sa, da, data = gen.octets(rng, 6), gen.octets(rng, 6), gen.octets(rng, rng.randrange(0, 100))
                p.on('t', 'hash', sa, da, pri, data, expect=eq(tkip(key, sa, da, pri, data, version or 'D3')))
            out.append(p)
    for n in [255, 256, 257, 1023, 1024, 1499, 1500, 2304, 4095, 4096, 4097, 8191] + [rng.randrange(300, 20000) for _ in range(6 if not big else 40)]:
        p = Prog('long messages', cost=1 + n / 2000.)
        key, data = gen.octets(rng, 8), gen.octets(rng, n)
        p.new('m', MI, key)
        p.call('call', V('m'), data, expect=eq(misc.michael(key, data)))
        p.new('t', TK, key)
        sa, da, pri = gen.octets(rng, 6), gen.octets(rng, 6), rng.randrange(16)
        p.on('t', 'hash', sa, da, pri, data, expect=eq(tkip(key, sa, da, pri, data, 'D3')))
        p.call('call', V('m'), data, expect=eq(misc.michael(key, data)))
        out.append(p)
    for _ in range(25 if not big else 250):
        p = Prog('related arguments', cost=2)
        key, sa, da, data = rng.randbytes(8), rng.randbytes(6), rng.randbytes(6), rng.randbytes(rng.randrange(1, 50))
        v = rng.choice(('D3', 'D2'))
        p.new('t0', TK, key, S(v))
        p.new('t1', TK, gen.flip(rng, key), S(v))
        p.new('t2', TK, key, S('D3' if v == 'D2' else 'D2'))
        p.new('m', MI, key)
        keys = [key, p.steps[1]['a'][0]['b'], key]
        keys[1] = bytes.fromhex(keys[1])
        vs = [v, v, 'D3' if v == 'D2' else 'D2']
        todo = [(sa, da, 0, data), (da, sa, 0, data), (sa, da, 1, data), (sa, da, 15, data), (gen.flip(rng, sa), da, 0, data),
                (sa, gen.flip(rng, da), 0, data), (sa, da, 0, gen.flip(rng, data)), (sa, da, 0, data[:-1]), (sa, da, 0, data + b'\0'), (sa, da, 0, data + b'\x5a'),
                (sa, da, 0, b'')]
        todo = [(x, i) for x in todo for i in range(3)]
        rng.shuffle(todo)
        for x, i in todo:
            p.on('t%d' % i, 'hash', *x, expect=eq(tkip(keys[i], *x, vs[i])))
            if i == 0:
                p.call('call', V('m'), x[3], expect=eq(misc.michael(key, x[3])))
        out.append(p)
    # one object, everything but one argument (or the key) as in the call before
    for i in range(25 if not big else 250):
        p = Prog('one thing changed at a time', cost=2)
        v = rng.choice(('D3', 'D2'))
        now = {'key': gen.octets(rng, 8), 'sa': gen.octets(rng, 6), 'da': gen.octets(rng, 6), 'pri': rng.randrange(16),
               'data': gen.octets(rng, 1 + ((40, 300, 700, 1600, 3000)[i // 2 % 5] + rng.randrange(400) if i % 2 else rng.randrange(60)))}
        full = now['data']
        seen = [dict(now)]
        p.new('t', TK, now['key'], S(v))
        p.new('m', MI, now['key'])
        for _ in range(16):
            k = rng.choice(sorted(now) + ['key'])
            if k == 'data' and rng.randrange(2):
                new = full
            elif rng.randrange(4) == 0:
                new = rng.choice(seen)[k]
            elif k == 'pri':
                new = rng.randrange(16)
            elif k == 'data' and rng.randrange(2):
                new = rng.choice((now[k][:-1], now[k] + b'\0', now[k] * 2, now[k][::-1], b''))[:9000] or b'\x5a'
            elif k in ('sa', 'da') and rng.randrange(5) == 0:
                now['sa'], now['da'] = now['da'], now['sa']
                new = now[k]
            else:
                new = gen.flip(rng, now[k])
            now[k] = new
            seen.append(dict(now))
            if k == 'key':
                p.on('t', 'setKey', new)
                p.on('m', 'setKey', new)
            p.on('t', 'hash', now['sa'], now['da'], now['pri'], now['data'], expect=eq(tkip(now['key'], now['sa'], now['da'], now['pri'], now['data'], v)))
            if k in ('key', 'data'):
                p.call('call', V('m'), now['data'], expect=eq(misc.michael(now['key'], now['data'])))
        out.append(p)
    return [('main', out, {})]
