""" Independent oracles: Michael, TKIP (IEEE 802.11-2007 clause 8.3.2), 802.11 PRF,
Walsh transform, permutation cycles, pi """
import hashlib
import hmac as _hmac
import struct
from .sym import SBOX, M2, M3

M32 = 0xffffffff


def michael(key, data):
    l, r = struct.unpack('<II', key)
    m = data + b'\x5a' + b'\0' * 4
    m += b'\0' * (-len(m) % 4)
    for (w,) in struct.iter_unpack('<I', m):
        l ^= w
        r ^= (l << 17 | l >> 15) & M32
        l = (l + r) & M32
        r ^= (l & 0xff) << 8 | (l >> 8) & 0xff | (l & 0xff0000) << 8 | (l >> 8) & 0xff0000
        l = (l + r) & M32
        r ^= (l << 3 | l >> 29) & M32
        l = (l + r) & M32
        r ^= (l >> 2 | l << 30) & M32
        l = (l + r) & M32
    return struct.pack('<II', l, r)


def _s(v):
    lo, hi = v & 255, v >> 8
    x = M2[SBOX[lo]] << 8 | M3[SBOX[lo]]
    y = M2[SBOX[hi]] << 8 | M3[SBOX[hi]]
    return x ^ (y << 8 | y >> 8) & 0xffff


def _ror(v):
    return v >> 1 | (v & 1) << 15


def mk16(hi, lo):
    return hi << 8 | lo


def tkip_phase1(tk, ta, tsc):
    """ tsc: six octets, TSC0 first """
    p = [mk16(tsc[3], tsc[2]), mk16(tsc[5], tsc[4]), mk16(ta[1], ta[0]), mk16(ta[3], ta[2]), mk16(ta[5], ta[4])]
    for i in range(8):
        j = 2 * (i & 1)
        p[0] = (p[0] + _s(p[4] ^ mk16(tk[1 + j], tk[0 + j]))) & 0xffff
        p[1] = (p[1] + _s(p[0] ^ mk16(tk[5 + j], tk[4 + j]))) & 0xffff
        p[2] = (p[2] + _s(p[1] ^ mk16(tk[9 + j], tk[8 + j]))) & 0xffff
        p[3] = (p[3] + _s(p[2] ^ mk16(tk[13 + j], tk[12 + j]))) & 0xffff
        p[4] = (p[4] + _s(p[3] ^ mk16(tk[1 + j], tk[0 + j])) + i) & 0xffff
    return p


def tkip_key(tk, ta, tsc):
    p1 = tkip_phase1(tk, ta, tsc)
    k = list(p1) + [(p1[4] + mk16(tsc[1], tsc[0])) & 0xffff]
    t = [mk16(tk[2 * i + 1], tk[2 * i]) for i in range(8)]
    for i in range(6):
        k[i] = (k[i] + _s(k[(i + 5) % 6] ^ t[i])) & 0xffff
    k[0] = (k[0] + _ror(k[5] ^ t[6])) & 0xffff
    k[1] = (k[1] + _ror(k[0] ^ t[7])) & 0xffff
    for i in range(2, 6):
        k[i] = (k[i] + _ror(k[i - 1])) & 0xffff
    out = [tsc[1], (tsc[1] | 0x20) & 0x7f, tsc[0], (k[5] ^ t[0]) >> 1 & 255]
    for v in k:
        out += [v & 255, v >> 8]
    return bytes(out)


def hmac(h, key, data):
    return _hmac.new(key, data, h).digest()


def prf(key, prefix, data, bits):
    out, i = b'', 0
    while len(out) * 8 < bits:
        out += hmac('sha1', key, prefix + b'\0' + data + bytes([i]))
        i += 1
    return out[:bits // 8]


def pbkdf2(pw, salt, it, n):
    return hashlib.pbkdf2_hmac('sha1', pw, salt, it, n) if n else b''


def walsh(t):
    """ fast Walsh-Hadamard transform of (-1)^t """
    a = [1 - 2 * x for x in t]
    h = 1
    while h < len(a):
        for i in range(0, len(a), 2 * h):
            for j in range(i, i + h):
                a[j], a[j + h] = a[j] + a[j + h], a[j] - a[j + h]
        h *= 2
    return a


def nonlinearity(t):
    return len(t) // 2 - max(abs(v) for v in walsh(t)) / 2.0


def sbox_nonlinearity(s):
    v = [nonlinearity([bin(c & x).count('1') & 1 for x in s]) for c in range(1, len(s))]
    return min(v), max(v)


def cycles(p):
    seen, out = set(), {}
    for i in range(len(p)):
        if i not in seen:
            c, j = [], i
            while j not in seen:
                seen.add(j)
                c.append(j)
                j = p[j]
            out[i] = c
    return out


def pi_digits(n):
    """ '3.' and n digits (Chudnovsky, integer arithmetic) """
    import math
    digits = n + 20
    def bs(a, b):
        if b - a == 1:
            if a == 0:
                p = q = 1
            else:
                p = (6 * a - 5) * (2 * a - 1) * (6 * a - 1)
                q = a * a * a * 640320 ** 3 // 24
            t = p * (13591409 + 545140134 * a)
            return p, q, -t if a & 1 else t
        m = (a + b) // 2
        p1, q1, t1 = bs(a, m)
        p2, q2, t2 = bs(m, b)
        return p1 * p2, q1 * q2, q2 * t1 + p1 * t2
    p, q, t = bs(0, digits // 14 + 2)
    one = 10 ** digits
    v = q * 426880 * math.isqrt(10005 * one * one) // t // 10 ** 20
    s = str(v)
    return s[0] + '.' + s[1:]
