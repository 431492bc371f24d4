import hashlib
from ..prog import Prog, V, M, eq, refused
from ..oracle import misc
from .. import gen

RULE = ('one history = one HMAC object driven through calls of hash / call (with and without more), update, digest, reset, setKey, held '
        'against HMAC of RFC 2104 over the octets fed since the last start under the last key; keys of 0 to 300 octets around the block and '
        'digest sizes; SHA-1, MD5 and, through the generic class, SHA-224/256 and the 128 octet blocks of SHA-384/512; two objects '
        'interleaved; use before a key. Non-trivial: every history')
H = 'cryptopy.hash.hmac:'
ALGS = {'sha1': (64, 20), 'md5': (64, 16), 'sha224': (64, 28), 'sha256': (64, 32), 'sha384': (128, 48), 'sha512': (128, 64)}
CLS = {'sha1': 'crypto.hash.sha1Hash:SHA1', 'md5': 'crypto.hash.md5Hash:MD5', 'sha224': 'crypto.hash.moreHash:SHA224',
       'sha256': 'crypto.hash.moreHash:SHA256', 'sha384': 'crypto.hash.moreHash:SHA384', 'sha512': 'crypto.hash.moreHash:SHA512'}


def make(p, d, alg, key, kw=False):
    args = [] if key is None else [key]
    k = {}
    if kw and args:
        k, args = {'key': key}, []
    if alg in ('sha1', 'md5') and not kw or alg in ('sha1', 'md5') and len(p.steps) % 2:
        p.new(d, H + 'HMAC_' + alg.upper(), *args, k=k)
    else:
        p.new(d, H + 'HMAC', M(CLS[alg]), *args, k=k)


class Model(object):
    """ what RFC 2104 and the documented hash conventions say """
    def __init__(self, alg, key):
        self.alg, self.key, self.fed = alg, key, b''

    def digest(self):
        return misc.hmac(self.alg, self.key, self.fed)


def step(p, rng, o, m, klens):
    k = rng.randrange(10)
    data = gen.octets(rng, rng.choice((0, 1, 3, 8, 55, 56, 63, 64, 65, 119, 120, 128, 129, 200, rng.randrange(0, 400))))
    if k <= 2:
        m.fed += data
        p.on(o, rng.choice(('hash', '__call__')), data, expect=eq(m.digest()))
        m.fed = b''
    elif k == 3:
        m.fed += data
        p.on(o, rng.choice(('hash', '__call__')), data, 1, expect=eq(m.digest()))
    elif k in (4, 5):
        m.fed += data
        p.on(o, 'update', data)
    elif k in (6, 7):
        p.on(o, 'digest', expect=eq(m.digest()))
    elif k == 8:
        p.on(o, 'reset')
        m.fed = b''
    else:
        if rng.randrange(4):        # or the same key again
            m.key = gen.octets(rng, rng.choice(klens))
        m.fed = b''
        p.on(o, 'setKey', m.key)


def plan(rng, tier):
    big = tier == 'thorough'
    out = []
    for alg, (block, size) in ALGS.items():
        klens = sorted(set(gen.near(size, size)) | set(gen.near(block, 2 * block)) | {0, 1, 15, 16, 100, 200, 300})
        for kl in sorted(set(range(0, 3 * block + 2, 1 if big else 3)) | set(range(block - 3, block + 4))):
            p = Prog('every key size')
            for d in range(0, 2):
                key, data = gen.octets(rng, kl), gen.octets(rng, rng.randrange(0, 200))
                want = misc.hmac(alg, key, data)
                make(p, 'h', alg, key, d)
                p.call('call', V('h'), data, expect=eq(want))
                p.call('call', V('h'), data, expect=eq(want))
            out.append(p)
        for dl in range(0, 2 * block + 3, 1 if big else 4):
            p = Prog('every message size')
            key = gen.octets(rng, rng.choice(klens))
            make(p, 'h', alg, key)
            for n in (dl, dl + 1, dl + block * 2):
                data = gen.octets(rng, n)
                p.call('call', V('h'), data, expect=eq(misc.hmac(alg, key, data)))
            out.append(p)
        for _ in range(40 if not big else 500):
            p = Prog('histories of one object')
            key = None if rng.randrange(5) == 0 else gen.octets(rng, rng.choice(klens))
            make(p, 'h', alg, key, rng.randrange(2))
            if key is None:
                for _ in range(rng.randrange(4)):
                    f, a = rng.choice((('hash', [b'data']), ('update', [b'data']), ('digest', []), ('reset', []), ('__call__', [b'x'])))
                    p.on('h', f, *a, expect=refused)
                key = gen.octets(rng, rng.choice(klens))
                p.on('h', 'setKey', key)
            m = Model(alg, key)
            for _ in range(rng.randrange(4, 25)):
                step(p, rng, 'h', m, klens)
            p.on('h', 'digest', expect=eq(m.digest()))
            out.append(p)
        for _ in range(10 if not big else 120):
            p = Prog('objects interleaved')
            ms = []
            for i in range(3):
                a2 = rng.choice((alg, alg, 'sha1', 'md5'))
                key = gen.octets(rng, rng.choice(klens))
                make(p, 'h%d' % i, a2, key)
                ms.append(Model(a2, key))
            for _ in range(20):
                i = rng.randrange(3)
                step(p, rng, 'h%d' % i, ms[i], klens)
            out.append(p)
        for n in (1023, 1024, 1025, 4096, 9999, rng.randrange(10000, 40000)):
            p = Prog('long messages and keys', cost=1 + n / 4000.)
            key, data = gen.octets(rng, rng.choice((20, n))), rng.randbytes(n)
            make(p, 'h', alg, key)
            p.call('call', V('h'), data, expect=eq(misc.hmac(alg, key, data)))
            for c in gen.cut(rng, data, 5):
                p.on('h', 'update', c)
            p.on('h', 'digest', expect=eq(misc.hmac(alg, key, data)))
            p.on('h', 'update', data[:7])
            p.on('h', 'digest', expect=eq(misc.hmac(alg, key, data + data[:7])))
            out.append(p)
        p = Prog('very many small pieces', cost=4)
        key = gen.octets(rng, rng.choice(klens))
        make(p, 'h', alg, key)
        fed = b''
        for i in range(400 if not big else 2000):
            c = rng.randbytes(rng.randrange(0, 6))
            fed += c
            p.on('h', 'update', c)
            if i % 57 == 56:
                p.on('h', 'digest', expect=eq(misc.hmac(alg, key, fed)))
        p.on('h', 'digest', expect=eq(misc.hmac(alg, key, fed)))
        out.append(p)
        # keys that differ in one bit, in length by trailing zeros, or are the digest of one another
        p = Prog('related keys')
        key = rng.randbytes(rng.choice((block + 1, 20, block)))
        keys = [key, gen.flip(rng, key), key + b'\0', key[:-1], key[:-1] + b'\0', key * 2, key[::-1], hashlib.new(alg, key).digest(), bytes(block), b'', bytes(block + 1)]
        make(p, 'h', alg, key)
        for r in range(3):
            for k in rng.sample(keys, len(keys)):
                data = gen.octets(rng, gen.size(rng, 3000))
                if rng.randrange(2):
                    p.on('h', 'setKey', k)
                    p.call('call', V('h'), data, expect=eq(misc.hmac(alg, k, data)))
                else:
                    make(p, 'g', alg, k)
                    p.call('call', V('g'), data, expect=eq(misc.hmac(alg, k, data)))
        out.append(p)
        p = Prog('piecewise feeding')
        key, data = gen.octets(rng, 24), rng.randbytes(700)
        make(p, 'h', alg, key)
        for n in (2, 3, 10, 60):
            for c in gen.cut(rng, data, n):
                p.on('h', 'update', c)
            p.on('h', 'digest', expect=eq(misc.hmac(alg, key, data)))
            p.on('h', 'digest', expect=eq(misc.hmac(alg, key, data)))
            p.on('h', 'reset')
        out.append(p)
        p = Prog('described by its attributes')
        make(p, 'h', alg, b'k')
        p.attr('h', 'digest_size', expect=eq(size))
        p.attr('h', 'raw_block_size', expect=eq(block))
        out.append(p)
    return [('main', out, {})]
