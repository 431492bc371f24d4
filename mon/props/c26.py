from ..prog import Prog, V, eq, refused
from ..oracle import edges, misc
from .. import gen

RULE = ('one history = one TKIP_Mixer driven through constructor forms, setKey, setTA, setPnBytes and newKey in any order, with counters that '
        'stay, advance, go back, and change in one octet at a time; inputs for which each sum of the mixing comes to the edge of 16 bits; every newKey must give the RFC/802.11 mixed key of the current TK, TA '
        'and the given counter whatever came before. Non-trivial: every history')
K = 'cryptopy.hash.tkip_key_mixing:'


def tsc(rng, last):
    k = rng.randrange(9)
    n = int.from_bytes(last, 'little')
    if k == 0:
        return gen.octets(rng, 6)
    if k == 1:
        return bytes(6)
    if k == 2:
        n += 1
    elif k == 3:
        n -= 1
    elif k == 4:
        n = (n | 0xffff) + rng.randrange(2)
    elif k == 5:
        b = bytearray(last)
        b[rng.randrange(6)] ^= 1 << rng.randrange(8)
        return bytes(b)
    elif k == 6:
        return last
    elif k == 7:
        n += 1 << rng.choice((16, 24, 32, 40))
    else:
        return rng.randbytes(2) + last[2:]
    return (n % (1 << 48)).to_bytes(6, 'little')


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for _ in range(200 if not big else 3000):
        p = Prog('histories of one mixer')
        tk = ta = None
        pn = bytes(6)
        k = rng.randrange(6)
        if k == 0:
            p.new('m', K + 'TKIP_Mixer')
        elif k == 1:
            tk = gen.octets(rng, 16)
            p.new('m', K + 'TKIP_Mixer', tk)
        elif k == 2:
            tk, ta = gen.octets(rng, 16), gen.octets(rng, 6)
            p.new('m', K + 'TKIP_Mixer', tk, ta)
        elif k == 3:
            tk, ta, pn = gen.octets(rng, 16), gen.octets(rng, 6), gen.octets(rng, 6)
            p.new('m', K + 'TKIP_Mixer', tk, ta, pn)
        elif k == 4:
            pn = gen.octets(rng, 6)
            p.new('m', K + 'TKIP_Mixer', k={'pnBytes': pn})
        else:
            ta = gen.octets(rng, 6)
            p.new('m', K + 'TKIP_Mixer', k={'transmitterAddress': ta})
        for _ in range(rng.randrange(5, 25)):
            k = rng.randrange(12)
            if k == 0:
                tk = gen.octets(rng, 16)
                p.on('m', 'setKey', tk)
            elif k == 1:
                ta = gen.octets(rng, 6)
                p.on('m', 'setTA', ta)
            elif k == 2:
                pn = tsc(rng, pn)
                p.on('m', 'setPnBytes', pn)
            elif k == 3 and rng.randrange(2):
                f, n = rng.choice((('setKey', 15), ('setKey', 17), ('setKey', 0), ('setTA', 5), ('setTA', 7), ('setPnBytes', 5), ('setPnBytes', 7),
                                   ('newKey', 5), ('newKey', 7), ('newKey', 8)))
                p.on('m', f, bytes(n), expect=refused)
            else:
                n = tsc(rng, pn)
                p.on('m', 'newKey', n, expect=refused if tk is None or ta is None else eq(misc.tkip_key(tk, ta, n)))
                pn = n
        tk, ta = gen.octets(rng, 16), gen.octets(rng, 6)
        order = [('setKey', tk), ('setTA', ta)]
        rng.shuffle(order)
        for f, a in order:
            p.on('m', f, a)
        for _ in range(3):
            p.on('m', 'newKey', pn, expect=eq(misc.tkip_key(tk, ta, pn)))
            pn = tsc(rng, pn)
        out.append(p)
    for part in gen.chunks(edges.TKIP, 25):
        p = Prog('sums at the edge of a word')
        for i, n in enumerate(part):
            tk, ta, pn = edges.tkip(n)
            if i % 3 == 0:
                p.new('m', K + 'TKIP_Mixer', tk, ta)
            else:
                for f, a in rng.sample([('setKey', tk), ('setTA', ta)], 2):
                    p.on('m', f, a)
            p.on('m', 'newKey', pn, expect=eq(misc.tkip_key(tk, ta, pn)))
        out.append(p)
    for i in range(6):
        p = Prog('each counter octet')
        tk, ta = gen.octets(rng, 16), gen.octets(rng, 6)
        p.new('m', K + 'TKIP_Mixer', tk, ta)
        base = rng.randbytes(6)
        for v in list(range(0, 256, 1 if big else 5)) + [255, 0x20, 0x7f, 0x80, 0xdf]:
            n = base[:i] + bytes([v]) + base[i + 1:]
            p.on('m', 'newKey', n, expect=eq(misc.tkip_key(tk, ta, n)))
        out.append(p)
    for _ in range(30 if not big else 300):
        p = Prog('mixers interleaved')
        ms = []
        for i in range(3):
            tk, ta = gen.octets(rng, 16), gen.octets(rng, 6)
            if ms and rng.randrange(2):     # the same key or the same address on two mixers
                tk, ta = rng.choice(((ms[0][0], ta), (tk, ms[0][1]), (ms[0][0], gen.flip(rng, ms[0][1])), (gen.flip(rng, ms[0][0]), ms[0][1])))
            p.new('m%d' % i, K + 'TKIP_Mixer', tk, ta)
            ms.append((tk, ta))
        pn = rng.randbytes(6)
        for _ in range(15):
            i = rng.randrange(3)
            pn = tsc(rng, pn)
            p.on('m%d' % i, 'newKey', pn, expect=eq(misc.tkip_key(ms[i][0], ms[i][1], pn)))
        out.append(p)
    for _ in range(4 if not big else 20):
        p = Prog('long runs of one mixer', cost=5)
        tk, ta = rng.randbytes(16), rng.randbytes(6)
        p.new('m', K + 'TKIP_Mixer', tk, ta)
        n = (rng.getrandbits(32) << 16 | 0xff80) - rng.randrange(64)
        for i in range(400 if not big else 2000):
            n = (n + rng.choice((1, 1, 1, 1, 2, 0, -1, 0x100, 0xffff))) % (1 << 48)
            if i % 37 == 36:
                k = rng.randrange(3)
                if k == 0:
                    tk = gen.flip(rng, tk)
                    p.on('m', 'setKey', tk)
                elif k == 1:
                    ta = gen.flip(rng, ta)
                    p.on('m', 'setTA', ta)
                else:
                    p.on('m', 'newKey', n.to_bytes(6, 'little')[:5], expect=refused)
            p.on('m', 'newKey', n.to_bytes(6, 'little'), expect=eq(misc.tkip_key(tk, ta, n.to_bytes(6, 'little'))))
        out.append(p)
    # one thing changed at a time, in one bit or octet, or set back or set again
    for i in range(40 if not big else 400):
        p = Prog('one thing changed at a time', cost=2)
        tk, ta, pn = gen.octets(rng, 16), gen.octets(rng, 6), gen.octets(rng, 6)
        p.new('m', K + 'TKIP_Mixer', tk, ta, pn)
        tks, tas = [tk], [ta]
        todo = [('k', j) for j in range(16)] + [('a', j) for j in range(6)] * 2 + [('c', 0)] * 6
        rng.shuffle(todo)
        for k, j in todo:
            if k == 'k':
                tk = tk[:j] + bytes([tk[j] ^ 1 << rng.randrange(8)]) + tk[j + 1:] if rng.randrange(6) else rng.choice(tks)
                tks.append(tk)
                p.on('m', 'setKey', tk)
            elif k == 'a':
                ta = ta[:j] + bytes([ta[j] ^ 1 << rng.randrange(8)]) + ta[j + 1:] if rng.randrange(6) else rng.choice(tas)
                tas.append(ta)
                p.on('m', 'setTA', ta)
            if k == 'c' or rng.randrange(3) == 0:
                pn = tsc(rng, pn)
            p.on('m', 'newKey', pn, expect=eq(misc.tkip_key(tk, ta, pn)))
        out.append(p)
    # every word through the substitution
    for _ in range(60 if not big else 400):
        p = Prog('many keys')
        p.new('m', K + 'TKIP_Mixer')
        for _ in range(10):
            tk, ta, pn = rng.randbytes(16), rng.randbytes(6), rng.randbytes(6)
            p.on('m', 'setKey', tk)
            p.on('m', 'setTA', ta)
            p.on('m', 'newKey', pn, expect=eq(misc.tkip_key(tk, ta, pn)))
        out.append(p)
    return [('main', out, {})]
