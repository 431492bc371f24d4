from ..prog import Prog, V, eq, refused, sealed
from ..oracle import sym
from .. import gen

A = 'cryptopy.cipher.chacha_poly:ChaCha20_AEAD'
B = 'cryptopy.cipher.chacha_poly:ChaCha_Poly_AEAD'
RULE = ('one history = an AEAD object opening a genuine message and hostile variants of it: one bit changed in every octet of '
        'the nonce, ciphertext, tag and associated data (to 70000 octets), truncations, extensions, octets moved between associated data and '
        'ciphertext, swapped tags, other keys, tags that share a prefix with the right one, tags solved for (zeros, white space, digits, text) and look-alikes of each under digests, sums, permutations and partial comparison; genuine messages again after '
        'refusals. Non-trivial: at least one genuine and one hostile open. A hostile open may only end in a refusal; for the '
        'detached interface the recomputed tag has to be the oracle tag of what was received')


def hostile(rng, key, const, iv, aad, ct, tag, limit):
    """ (aad, blob) pairs that are not what was sealed """
    blob = iv + ct + tag
    for b in gen.flips(blob, rng, limit):
        yield aad, b
    for b in gen.flips(tag, rng, 16):
        yield aad, iv + ct + b
    for b in gen.flips(aad, rng, limit):
        yield b, blob
    for k in range(0, len(blob)):
        if k < 40 or k % 7 == 0 or len(blob) - k < 40:
            yield aad, blob[:k]
    for x in (b'\0', b'\x01', b'\xff', bytes(16), tag):
        yield aad, blob + x
        yield aad, iv + ct + x + tag
        yield aad, iv + x + ct + tag
        yield aad + x, blob
        yield x + aad, blob
    if aad:
        yield aad[:-1], iv + aad[-1:] + ct + tag
        yield b'', iv + aad + ct + tag
        yield b'', blob
        yield aad[:-1], blob
        yield aad[1:], blob
    if ct:
        yield aad + ct[:1], iv + ct[1:] + tag
        yield aad + ct, iv + tag
        yield aad, iv + ct[:-1] + tag
        yield ct, iv + aad + tag
        if len(ct) > 1 and ct[::-1] != ct:
            yield aad, iv + ct[::-1] + tag
    yield aad, iv + ct + bytes(16)
    yield aad, iv + ct + b'\xff' * 16
    if tag[::-1] != tag:
        yield aad, iv + ct + tag[::-1]
    for t in gen.look_alikes(rng, tag):
        yield aad, iv + ct + t
    # wrong tags that agree with the right one in one half, or in the xor or sum of their octets
    yield aad, iv + ct + tag[:8] + bytes(x ^ 0x55 for x in tag[8:])
    yield aad, iv + ct + bytes(x ^ 0xaa for x in tag[:8]) + tag[8:]
    yield aad, iv + ct + bytes([tag[0] ^ 1, tag[1] ^ 1]) + tag[2:]
    yield aad, iv + ct + tag[:14] + bytes([tag[14] ^ 0x80, tag[15] ^ 0x80])
    if tag[1:] + tag[:1] != tag:
        yield aad, iv + ct + tag[1:] + tag[:1]
    # tags of something else under the same key
    n = const + iv
    otk = sym.chacha_block(key, 0, n)[:32]
    for t in (sym.poly1305(otk, aad + ct), sym.poly1305(otk, ct), sym.aead_tag(key, n, b'', ct) if aad else None,
              sym.aead_tag(key, n, aad, sym.chacha(key, 1, n, ct)) if ct else None):
        if t is not None and t != tag:
            yield aad, iv + ct + t


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    shapes = [(0, 0), (0, 1), (1, 0), (12, 114), (16, 16), (15, 17), (17, 15), (0, 64), (20, 65), (32, 63), (5, 128), (16, 0), (0, 16)]
    shapes += [(rng.randrange(60), rng.randrange(150)) for _ in range(14 if not big else 400)]
    for a, m in shapes:
        p = Prog('hostile messages', cost=2 + m / 50)
        key, split = gen.octets(rng, 32), rng.choice((0, 4, 4, 4, 8, 12))
        const, iv = gen.octets(rng, split), gen.octets(rng, 12 - split)
        aad, pt = gen.octets(rng, a), gen.octets(rng, m)
        ct, tag = sym.aead(key, const + iv, aad, pt)
        p.new('b', B, key, const)
        p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
        for k, (x, blob) in enumerate(hostile(rng, key, const, iv, aad, ct, tag, 48 if not big else 200)):
            assert (x, blob) != (aad, iv + ct + tag)
            ivl = 12 - split
            if len(blob) >= ivl + 16 and sym.aead_tag(key, const + blob[:ivl], x, blob[ivl:-16]) == blob[-16:]:
                continue
            p.on('b', 'decrypt', x, blob, expect=sealed(pt))
            if k % 25 == 24:
                p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
        p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
        # another key, another fixed part of the nonce
        for b in range(3):
            k2 = bytearray(key)
            k2[rng.randrange(32)] ^= 1 << rng.randrange(8)
            p.new('x%d' % b, B, bytes(k2), const)
            p.on('x%d' % b, 'decrypt', aad, iv + ct + tag, expect=sealed(pt))
        if const:
            c2 = bytearray(const)
            c2[rng.randrange(len(const))] ^= 1 << rng.randrange(8)
            p.new('y', B, key, bytes(c2))
            p.on('y', 'decrypt', aad, iv + ct + tag, expect=sealed(pt))
        out.append(p)
    for n, a in ((1024, 5), (4097, 0), (5, 3000), (20000, 17), (40000, 12), (0, 70000), (66000, 1)) + (((140000, 3), (300, 140000)) if big else ()):
        p = Prog('long hostile messages', cost=3 + n / 5000. + a / 20000.)
        key, const, iv = gen.octets(rng, 32), gen.octets(rng, 4), gen.octets(rng, 8)
        aad, pt = rng.randbytes(a), rng.randbytes(n)
        ct, tag = sym.aead(key, const + iv, aad, pt)
        p.new('b', B, key, const)
        p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
        for part in (0, 1):
            v = (ct, aad)[part]
            if len(v) < 100:
                continue
            # one bit in the last octet, the last block, the middle, past each power of 2
            at = {len(v) - 1, len(v) - 17, len(v) // 2} | {(1 << e) + rng.randrange(3) for e in (8, 10, 12, 14, 15, 16)} | {rng.randrange(len(v))}
            bads = [v[:i] + bytes([v[i] ^ (1 << rng.randrange(8))]) + v[i + 1:] for i in sorted(at) if i < len(v)]
            for w in bads + [v[:-1], v[1:], v[:-16], v[16:], v + bytes(16), v[:len(v) // 2], v[16:32] + v[:16] + v[32:]]:
                p.on('b', 'decrypt', w if part else aad, iv + (ct if part else w) + tag, expect=sealed(pt))
        p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
        out.append(p)
    # tags of every form, reached by solving for the last block; others that look like them to a careless comparison
    todo = [(t, b) for t, b in gen.TAGS for _ in range(1 if not big else 8)]
    for part in gen.chunks(todo, 3):
        p = Prog('chosen tags')
        key, split = gen.octets(rng, 32), rng.choice((0, 4, 8, 12))
        const = gen.octets(rng, split)
        p.new('b', B, key, const)
        p.new('a', A, key, const)
        for tag, bad in part:
            ct = None
            while ct is None:
                iv, aad = gen.octets(rng, 12 - split), gen.octets(rng, rng.choice((0, 1, 16, rng.randrange(40))))
                ct = sym.aead_craft(key, const + iv, aad, rng.randbytes(16 * rng.randrange(4)), tag)
            pt = sym.chacha(key, 1, const + iv, ct)
            assert sym.aead(key, const + iv, aad, pt) == (ct, tag)
            p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
            p.on('a', 'decrypt', aad, iv, ct, expect=eq((pt, tag)))
            p.on('b', 'encrypt', aad, iv, pt, expect=eq(iv + ct + tag))
            for t in bad + [tag.lower(), tag.upper(), tag.swapcase(), tag[::-1], tag[1:] + tag[:1], bytes(16)] + gen.look_alikes(rng, tag)[::4]:
                if t != tag:
                    p.on('b', 'decrypt', aad, iv + ct + t, expect=sealed(pt))
            for t in (tag.strip(), tag.strip(b'\0'), tag.split(b'\0')[0], tag[:8], tag + b'\0', tag + b'\n', b''):
                if t != tag:
                    p.on('b', 'decrypt', aad, iv + ct + t, expect=sealed(pt))
            p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
        out.append(p)
    for rep in range(30 if not big else 400):
        p = Prog('round trips')
        key, split = gen.octets(rng, 32), rng.choice((0, 4, 8, rng.randrange(13)))
        const = gen.octets(rng, split)
        p.new('b', B, key, const)
        p.new('a', A, key, const)
        for i in range(8):
            iv = gen.octets(rng, 12 - split)
            aad, pt = gen.octets(rng, rng.randrange(40)), gen.octets(rng, rng.randrange(140))
            p.call('.encrypt', aad, iv, pt, o='b', d='m%d' % i)
            p.on('b', 'decrypt', aad, V('m%d' % i), expect=eq(pt))
            ct, tag = sym.aead(key, const + iv, aad, pt)
            p.on('b', 'decrypt', aad, iv + ct + tag, expect=eq(pt))
            p.on('a', 'decrypt', aad, iv, ct, expect=eq((pt, tag)))
            # whatever is received, the tag to compare with is the tag of exactly that
            bad = gen.octets(rng, rng.randrange(100))
            p.on('a', 'decrypt', aad, iv, bad, expect=eq((sym.chacha(key, 1, const + iv, bad), sym.aead_tag(key, const + iv, aad, bad))))
        out.append(p)
    return [('main', out, {})]
