from fractions import Fraction
from ..prog import Prog, Frac, pred, refused, eq
from ..oracle import misc

RULE = ('one history = the digit string as a whole, or a run of pi(n) calls for digit counts n: all small ones, around powers of ten and '
        'around the end of the table, random others. Non-trivial: every history')
P = 'cryptopy.fmath.pi:'


def plan(rng, tier):
    big = tier == 'thorough'
    digits = misc.pi_digits(50010)
    n_max = 50000
    out = []
    p = Prog('digit string', cost=3)

    def same(s):
        return isinstance(s, bytes) and s.decode() == digits[:2 + n_max]
    p.call('val:' + P + 'pi_string', expect=pred(same, "'3.' and the first 50000 digits of pi"))
    out.append(p)
    wide = Fraction(int(digits.replace('.', '')), 10 ** 50010)

    def near(n):
        def good(r):
            v = Fraction(r[0], r[1])
            return isinstance(r, Frac) and r[1] > 0 and abs(v - wide) < Fraction(1, 10 ** n)
        return pred(good, 'a fraction less than 10**-%d from pi' % n)
    for lo in range(1, 400 if not big else 3000, 20):
        p = Prog('few digits')
        for n in range(lo, lo + 20):
            p.call(P + 'pi', n, expect=near(n))
        out.append(p)
    ns = [rng.randrange(1, 2500) for _ in range(30 if not big else 200)]
    p = Prog('digit counts in any order', cost=3)
    for n in ns + ns[::-1]:
        p.call(P + 'pi', n, expect=near(n))
    out.append(p)
    ns = [199, 200, 201, 511, 512, 761, 762, 763, 767, 768, 999, 1000, 1001, 1023, 1024, 2000, 2047, 2048, 3000, 4000, 4095, 4096, 4300, 5000] + [rng.randrange(200, 6000) for _ in range(10 if not big else 60)]
    for n in ns:
        p = Prog('many digits', cost=2)
        p.call(P + 'pi', n, expect=near(n))
        out.append(p)
    for n in (8191, 8192, 10000, 15000, 16383, 16384, 20000, 25000, 30000, 32767, 32768, 40000) + tuple(rng.randrange(6000, n_max) for _ in range(2 if not big else 60)):
        p = Prog('very many digits', cost=(n / 10000.) ** 2)
        p.call(P + 'pi', n, expect=near(n))
        out.append(p)
    for n in (n_max, n_max - 1, rng.randrange(10000, n_max), None):
        p = Prog('the end of the table', cost=20)
        p.call(P + 'pi', *([] if n is None else [n]), expect=near(n or n_max))
        out.append(p)
    p = Prog('more digits than there are')
    for n in (n_max + 1, n_max + 2, 10 ** 6, 10 ** 9):
        p.call(P + 'pi', n, expect=refused)
    out.append(p)
    return [('main', out, {})]
