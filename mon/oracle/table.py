""" The published domain parameters (curves.json), as oracle curves.  selftest.py
cross-checks every curve that the openssl command knows. """
import json
import os
from . import ec

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'curves.json')))


def _un(v):
    return int(v['hex'], 16) if isinstance(v, dict) else v


PARAMS = {n: {k: _un(v) for k, v in c.items()} for n, c in _T['curves'].items()}
ALIASES = _T['aliases']
LISTS = ['smallWeierstrassCurves', 'koblitzCurves', 'twistedEdwardsCurves', 'edwardsCurves', 'montgomeryCurves']


def oracle(name):
    c = PARAMS[name]
    if 'a' in c and c['list'] == 'montgomeryCurves':
        return ec.Montgomery(c['p'], c['a'])
    if c['list'] in ('twistedEdwardsCurves', 'edwardsCurves'):
        return ec.Edwards(c['p'], c.get('a', 1), c['d'])
    return ec.Weierstrass(c['p'], c.get('a', 0), c['b'])


def G(name):
    return PARAMS[name]['xG'], PARAMS[name]['yG']


def names(kind=None):
    return sorted(n for n in PARAMS if kind is None or oracle(n).kind == kind)


def cls(name):
    return 'cryptopy.ecc.curves:' + name


def random_point(rng, name):
    """ a point of the whole curve, not only of the subgroup of G """
    C = oracle(name)
    p = C.p
    while True:
        if C.kind == 'e':
            y = rng.randrange(p)
            # x^2 (a - d y^2) = 1 - y^2
            den = (C.a - C.d * y * y) % p
            if den == 0:
                continue
            x = ec.sqrt_mod((1 - y * y) * ec.inv(den, p), p)
            if x is None:
                continue
            P = (rng.choice((x, -x % p)), y)
        else:
            x = rng.randrange(p)
            f = x ** 3 + C.a * x + C.b if C.kind == 'w' else x ** 3 + C.a * x * x + x
            y = ec.sqrt_mod(f % p, p)
            if y is None:
                continue
            P = (x, rng.choice((y, -y % p)))
        assert C.on(P)
        return P
