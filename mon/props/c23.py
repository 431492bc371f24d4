from ..prog import Prog, V, M, eq, refused, eq_or_refused
from ..oracle import misc
from .. import gen
import hashlib

RULE = ('one history = a run of pbkdf2 calls (passwords of 0 to 63 octets, any salt, 1 to 40 iterations, some hundreds, thousands and one count beyond 65536, key sizes across '
        'every block boundary to 10000 octets, HMAC-SHA1, HMAC-MD5 as PRF), dot11PassPhraseToPSK calls, or requests beyond the limits. '
        'Non-trivial: every history')
F = 'cryptopy.hash.pbkdf2:'


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 130 if not big else 400):
        p = Prog('every key size')
        pw, salt, it = gen.octets(rng, rng.randrange(64)), gen.octets(rng, rng.randrange(0, 40)), rng.choice((1, 1, 2, 3))
        p.call(F + 'pbkdf2', pw, salt, it, n, expect=eq(misc.pbkdf2(pw, salt, it, n)))
        out.append(p)
    for n in (159, 160, 161, 255, 256, 257, 999, 1000, 1001, 5119, 5120, 5121, 5140, 9999, 10000) + tuple(rng.randrange(130, 10000) for _ in range(4)):
        p = Prog('long keys', cost=n / 500. + 1)
        pw, salt = gen.octets(rng, rng.randrange(64)), gen.octets(rng, 8)
        p.call(F + 'pbkdf2', pw, salt, 1, n, expect=eq(misc.pbkdf2(pw, salt, 1, n)))
        if n in (256, 1001, 5140, 10000):
            p.cost *= 3
            it = rng.choice((2, 3))
            p.call(F + 'pbkdf2', pw, salt, it, n, expect=eq(misc.pbkdf2(pw, salt, it, n)))
        out.append(p)
    for pl in range(64):
        p = Prog('every password size')
        for _ in range(2):
            pw, salt = gen.octets(rng, pl), gen.octets(rng, rng.choice((0, 1, 4, 8, 16, 32, 51, 52, 59, 60, 61, 64, 100)))
            it, n = rng.randrange(1, 12), rng.choice((1, 16, 20, 21, 32, 40, 41))
            p.call(F + 'pbkdf2', pw, salt, it, n, expect=eq(misc.pbkdf2(pw, salt, it, n)))
        out.append(p)
    for it in list(range(1, 41)) + [64, 100, 255, 256, 257, 500] + [rng.randrange(4097, 6000)] + [66000 + rng.randrange(2000)] + ([1000, 4096, 5000, 8192, 10001, 33000, 65537] if big else []):
        p = Prog('every iteration count', cost=it / 50. + 1)
        pw, salt = gen.octets(rng, rng.randrange(64)), gen.octets(rng, rng.randrange(20))
        n = rng.choice((8, 20, 32, 45))
        p.call(F + 'pbkdf2', pw, salt, it, n, expect=eq(misc.pbkdf2(pw, salt, it, n)))
        out.append(p)
    for _ in range(20 if not big else 200):
        p = Prog('related arguments', cost=3)
        pw, salt = rng.randbytes(rng.randrange(1, 60)), rng.randbytes(rng.randrange(1, 40))
        both = [(pw, salt), (salt[:63], pw), (pw + salt[:1], salt[1:]), (pw[:-1], pw[-1:] + salt), (gen.flip(rng, pw), salt), (pw, gen.flip(rng, salt)),
                (pw + b'\0', salt), (pw, salt + b'\0'), (pw, salt + b'\0\0\0\1'), (pw, b''), (b'', salt)]
        todo = [(a, s, it, n) for a, s in both for it, n in ((1, 20), (2, 33), (rng.randrange(1, 5), rng.randrange(1, 70)))]
        todo += rng.sample(todo, 8)
        rng.shuffle(todo)
        for a, s, it, n in todo:
            p.call(F + 'pbkdf2', a, s, it, n, expect=eq(misc.pbkdf2(a, s, it, n)))
        out.append(p)
    for n in (255, 256, 257, 1000, 5000, 20000):
        p = Prog('long salts')
        pw, salt = gen.octets(rng, rng.randrange(64)), gen.octets(rng, n)
        p.call(F + 'pbkdf2', pw, salt, 2, 45, expect=eq(misc.pbkdf2(pw, salt, 2, 45)))
        out.append(p)
    p = Prog('named arguments and other PRFs')
    pw, salt = b'password', b'ATHENA.MIT.EDUraeburn'
    p.call(F + 'pbkdf2', pw, salt, k={'iterations': 2, 'keySize': 32}, expect=eq(misc.pbkdf2(pw, salt, 2, 32)))
    for n in range(0, 66, 3):
        for it in (1, 2, 5):
            want = hashlib.pbkdf2_hmac('md5', pw, salt, it, n) if n else b''
            p.call(F + 'pbkdf2', pw, salt, it, n, M('cryptopy.hash.hmac:HMAC_MD5'), expect=eq(want))
    out.append(p)
    p = Prog('beyond the limits')
    for n in (64, 65, 100, 200):
        p.call(F + 'pbkdf2', bytes(n), b'salt', 1, 20, expect=eq_or_refused(misc.pbkdf2(bytes(n), b'salt', 1, 20)))
    p.call(F + 'pbkdf2', b'x' * 64, b'salt', 1, 20, expect=refused)
    p.call(F + 'pbkdf2', b'x', b'salt', 1, 10001, expect=refused)
    p.call(F + 'pbkdf2', b'x', b'salt', 1, 1 << 40, expect=refused)
    for n in (-1, -2, -20, -21, -10001, -1 << 40):
        p.call(F + 'pbkdf2', b'x', b'salt', 1, n, expect=refused)
    for n in (0, 1, 7, 64, 65, 100):
        p.call(F + 'dot11PassPhraseToPSK', b'p' * n, b'ssid', expect=refused)
    out.append(p)
    cases = [(b'password', b'IEEE'), (b'ThisIsAPassword', b'ThisIsASSID'), (b'a' * 32, b'Z' * 32)]
    for n in (8, 9, 62, 63) + tuple(rng.randrange(10, 62) for _ in range(2 if not big else 20)):
        cases.append((bytes(rng.randrange(32, 127) for _ in range(n)), gen.octets(rng, rng.randrange(0, 33))))
    for pw, ssid in cases:
        p = Prog('pass phrases', cost=40)
        p.call(F + 'dot11PassPhraseToPSK', pw, ssid, expect=eq(misc.pbkdf2(pw, ssid, 4096, 32)))
        out.append(p)
    # a pass phrase and a name that share their concatenation, a prefix, or all but a bit, in one process
    for _ in range(1 if not big else 8):
        p = Prog('related pass phrases', cost=160)
        pw, ssid = bytes(rng.randrange(97, 122) for _ in range(rng.randrange(9, 40))), bytes(rng.randrange(97, 122) for _ in range(rng.randrange(1, 20)))
        both = [(pw, ssid), (pw[:-1], pw[-1:] + ssid), (pw + ssid[:1], ssid[1:]), (pw.upper(), ssid), (pw, ssid + b'\0'), (pw, ssid.upper())]
        rng.shuffle(both)
        for a, s in both + both[:1]:
            p.call(F + 'dot11PassPhraseToPSK', a, s, expect=eq(misc.pbkdf2(a, s, 4096, 32)))
        out.append(p)
    return [('main', out, {})]
