""" Input generators shared by the properties """


def octets(rng, n):
    """ n octets, sometimes of an extreme shape """
    k = rng.randrange(12)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b'\xff' * n
    if k == 2:
        return bytes([rng.randrange(256)]) * n
    if k == 3 and n:
        b = bytearray(n)
        b[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(b)
    if k == 4 and n:
        return b'\0' + rng.randbytes(n - 1)
    if k == 5 and n:
        return rng.randbytes(n - 1) + b'\0'
    if k == 6:
        return bytes(rng.choice((0, 0x7f, 0x80, 0xff)) for _ in range(n))
    return rng.randbytes(n)


def near(block, upto, spread=2):
    """ lengths around the multiples of a block """
    out = set(range(0, block + spread + 1))
    for m in range(block, upto + 1, block):
        out.update(range(max(0, m - spread), m + spread + 1))
    return sorted(out)


def word32(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice((0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xffff, 0x10000))
    if k == 1:
        return 1 << rng.randrange(32)
    if k == 2:
        return 0xffffffff ^ (1 << rng.randrange(32))
    return rng.getrandbits(32)


def flips(b, rng, limit):
    """ copies of b with one bit changed: every octet is hit when limit allows """
    idx = list(range(len(b)))
    if len(idx) > limit:
        idx = sorted(rng.sample(idx, limit))
    for i in idx:
        yield b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def chunks(seq, n):
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


def cut(rng, b, pieces):
    """ b cut at random places """
    at = sorted(rng.randrange(len(b) + 1) for _ in range(pieces - 1))
    return [b[i:j] for i, j in zip([0] + at, at + [len(b)])]


def flip(rng, b):
    """ b with one bit changed """
    if not b:
        return b
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def size(rng, cap=3000):
    """ a length of any magnitude up to cap """
    return int(2 ** (rng.random() * (cap + 1).bit_length())) % (cap + 1)


DELTAS = [1, 2, (1 << 32) - 31, (1 << 32) - 31, 1 << 8, 1 << 16, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 48, 1 << 53, (1 << 61) - 1, 1 << 62, (1 << 63) - 1, 1 << 63,
          (1 << 64) - 1, 1 << 64, 1 << 96, (1 << 127) - 1, 1 << 128]


def alike(rng, x, p):
    """ a number below p other than x that shares low or high bits, a hash or a float with it """
    while True:
        y = x + rng.choice((1, -1, 3)) * rng.choice(DELTAS)
        if 0 <= y < p and y != x:
            return y


def alike_primes(rng):
    """ primes that share low words, or high words """
    from .oracle import nt
    p = nt.next_prime(rng.getrandbits(rng.choice((66, 90, 130))) | 1 << 65)
    out = [p, nt.next_prime(p)]
    for d in rng.sample([32, 64, 96], 2):
        while True:
            q = p + (rng.randrange(1, 1 << 32) << d)
            if nt.is_prime(q):
                break
        out.append(q)
    return out


# 16 octets, and others that careless comparisons take for the same
def look_alikes(rng, tag):
    """ values of the same length that a comparison by a digest of the value, by a part or by a multiset of its parts takes for tag """
    n, out = len(tag), []
    for order in ('big', 'little'):
        x = int.from_bytes(tag, order)
        for m in (255, 257, 65521, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 61 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 127 - 1):
            ys = [x + m, x - m] + [x % m + m * rng.randrange((256 ** n - 1 - x % m) // m + 1)] if m < 256 ** n else []
            out += [y.to_bytes(n, order) for y in ys if 0 <= y < 256 ** n][:2]
        for m in (2 ** 31 - 1, 2 ** 61 - 1):        # one half, reduced
            for i in range(0, n - 7, 8):
                y = int.from_bytes(tag[i:i + 8], order)
                y = y + m if y + m < 2 ** 64 else y - m
                out.append(tag[:i] + y.to_bytes(8, order) + tag[i + 8:])

    def put(*changes):
        b = bytearray(tag)
        for i, d in changes:
            if not 0 <= b[i] + d < 256:
                return
            b[i] += d
        out.append(bytes(b))
    for i in rng.sample(range(n - 2), 5):
        for s in (1, -1):
            put((i, s), (i + 1, -31 * s))           # hash of strings in Java
            put((i, s), (i + 1, -33 * s))
            put((i, s), (i + 1, -2 * s), (i + 2, s))    # sum and sum of sums
            put((i, s), (i + 1, -s))
            put((i, s), (n - 1, -s))
    for w in (1, 2, 4, 8):                          # the same change in two words
        for mask in (rng.randbytes(w), bytes([0x80] * w), b'\1' * w):
            i, j = rng.sample(range(n // w), 2)
            b = bytearray(tag)
            for k in range(w):
                b[i * w + k] ^= mask[k]
                b[j * w + k] ^= mask[k]
            out.append(bytes(b))
        ws = [tag[i:i + w] for i in range(0, n, w)]
        out += [b''.join(ws[::-1]), b''.join(ws[1:] + ws[:1]), b''.join(sorted(ws)), b''.join(v[::-1] for v in ws), b''.join(rng.sample(ws, len(ws)))]
        out.append(b''.join([v if rng.randrange(2) else ws[0] for v in ws]))
    for mask in (0x80, 0x20, 0xf0, 0x0f, 0xe0, 1, 3):    # octets compared in part
        out.append(bytes(c ^ (rng.randrange(256) & mask) for c in tag))
    for _ in range(2):                              # CRC-32
        k = rng.randrange(8 * n - 33)
        x = int.from_bytes(tag, 'little') ^ (0x1db710641 << k)
        out.append(x.to_bytes(n, 'little'))
        x = int.from_bytes(tag, 'big') ^ (0x104c11db7 << k)
        out.append(x.to_bytes(n, 'big'))
    return [t for t in dict.fromkeys(out) if t != tag and len(t) == n]


TAGS = [
    (bytes(16), [b'\0' * 15 + b'\x01', b'0' * 16, b' ' * 16, b'\xff' * 16]),
    (b'\xff' * 16, [bytes(16), b'\xff' * 15 + b'\xfe', b'\x7f' * 16]),
    (bytes(15) + b'\1', [b'\1' + bytes(15), bytes(14) + b'\1\0', bytes(16)]),
    (b'\1' + bytes(15), [bytes(15) + b'\1', b'\1' * 16, b'\1' + b' ' * 15]),
    (b'\0' + b'abcdefghijklmno', [b'\0' + b'ABCDEFGHIJKLMNO', b'\0' * 16, b'\0' + b'abcdefghijklmnp', b'abcdefghijklmno\0']),
    (b'abc\0efghijklmnop', [b'abc\0' + b'x' * 12, b'abc' + bytes(13), b'ABC\0EFGHIJKLMNOP']),
    (b' abcdefghijklmn ', [b'  abcdefghijklmn', b'abcdefghijklmn  ', b'\tabcdefghijklmn\n', b' ABCDEFGHIJKLMN ']),
    (b'abcdefghijklmno\n', [b'abcdefghijklmno ', b'abcdefghijklmno\r', b'abcdefghijklmno\0', b'\nabcdefghijklmno']),
    (b'abcdefghijklmn\r\n', [b'abcdefghijklmn\n\n', b'abcdefghijklmn\n\r', b'abcdefghijklmn  ']),
    (b'0000000000000012', [b'              12', b'000000000000012 ', b'+000000000000012', b'0000000000000013', b'12' + b'0' * 14]),
    (b'1e5             ', [b'100000          ', b'1E5             ', b'00000000000001e5']),
    (b'0000000000000000', [bytes(16), b'-000000000000000', b'               0', b'000000000000000.']),
    (b'deadbeefDEADBEEF', [b'DEADBEEFdeadbeef', b'deadbeefdeadbeef']),
    (b'aabbccddeeffgghh', [b'bbaaccddeeffgghh', b'hhggffeeddccbbaa', b'abababcdcdefefgh', b'aabbccddeeffgggg']),
    (b'\xc3\xa9' * 8, [b'e\xcc\x81' * 5 + b'e', b'\xc3\x89' * 8, b'\xe9' * 16]),
    (b'\x80' + bytes(15), [b'\x00' + bytes(15), bytes(15) + b'\x80', b'\x81' + bytes(15)]),
    (b'\x7f' * 16, [b'\xff' * 16]),
]
