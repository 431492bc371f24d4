import importlib
import json
import random
from ..prog import Prog

RULE = ('one history = either 2 to 6 call histories of the other properties, taken from any part of the library and interleaved call by '
        'call in one process, or one such history run while seven other threads run theirs. Each constituent is judged as it is on its '
        'own, and its operands are watched for changes; lists and dictionaries that were '
        'passed or returned are written over by the caller afterwards. What differs is reported only if the constituent, run alone in a process of its '
        'own, is as it should be. Non-trivial: every history')
ASSUMPTIONS = ['objects are not shared between threads: only the independence of separate objects and calls is looked at',
               'a result that is wrong in isolation too is the business of another property']
CONFIRM_ALONE = True
USE = ['c%02d' % i for i in list(range(1, 21)) + list(range(22, 29))]


def pool(seed, tier, per_class, limit):
    """ cheap histories of the other properties """
    out = []
    for name in USE:
        mod = importlib.import_module('mon.props.' + name)
        rng = random.Random('%s/c29/%s' % (seed, name))
        seen = {}
        cands = [p for pas in mod.plan(rng, 'quick') for p in pas[1]
                 if not p.entropy and not p.keep and p.cost <= limit and not hasattr(p, 'lanes') and not pas[2]]
        rng.shuffle(cands)
        for p in cands:
            if len(p.steps) > 120:
                p.steps, p.exp, p.judges = p.steps[:120], p.exp[:120], []
            seen.setdefault(p.tag, [])
            if len(seen[p.tag]) < per_class:
                seen[p.tag].append(p)
        for l in seen.values():
            out.extend(l)
    return out


def ren(v, s):
    if isinstance(v, dict):
        return {k: (x + s if k == 'v' else ren(x, s)) for k, x in v.items()}
    if isinstance(v, list):
        return [ren(x, s) for x in v]
    return v


def merge(rng, parts, tag='interleaved'):
    m = Prog(tag, cost=sum(p.cost for p in parts))
    m.parts = parts
    at = [0] * len(parts)
    where = [[] for _ in parts]
    burst = rng.choice((1, 1, 2, 5))
    while True:
        live = [i for i, p in enumerate(parts) if at[i] < len(p.steps)]
        if not live:
            break
        i = rng.choice(live)
        for _ in range(rng.randrange(1, burst + 1)):
            if at[i] == len(parts[i].steps):
                break
            st = dict(parts[i].steps[at[i]])
            s = '~%d' % i
            for k in 'do':
                if k in st:
                    st[k] = st[k] + s
            st['a'] = ren(st.get('a', []), s)
            if 'k' in st:
                st['k'] = ren(st['k'], s)
            if 'd' not in st and not st['f'].startswith(('val:', '@', 'op:', 'entropy', 'par', 'curve')) and \
                    not any(t in json.dumps(st['a']) for t in ('"v"', '"m"')):
                st['z'] = 1     # the caller writes over the lists it passed and got
            where[i].append(len(m.steps))
            m.steps.append(st)
            m.exp.append(parts[i].exp[at[i]])
            at[i] += 1
    for i, p in enumerate(parts):
        for fn in p.judges:
            m.judge(lambda res, fn=fn, w=where[i]: fn([res[k] for k in w]))
    return m


def plan(rng, tier):
    big = tier == 'thorough'
    seed = rng.getrandbits(64)
    progs = pool(seed, tier, 10 if not big else 60, 2.5)
    merged = []
    for _ in range(1 if not big else 4):
        rng.shuffle(progs)
        rest = list(progs)
        while rest:
            k = rng.randrange(2, 7)
            merged.append(merge(rng, rest[:k]))
            rest = rest[k:]
    # histories of one kind against each other, where state kept by a class or module would be shared
    kinds = {}
    for p in progs:
        kinds.setdefault(p.tag, []).append(p)
    for l in kinds.values():
        if len(l) > 1:
            for _ in range(2 if not big else 8):
                merged.append(merge(rng, rng.sample(l, min(len(l), rng.randrange(2, 5)))))
    # two copies of one history, the second starting while the first is under way: two objects of one class, two uses of one
    # function with the same arguments
    twice = [p for p in progs if len(p.steps) > 1]
    for p in twice if big else rng.sample(twice, min(len(twice), 260)):
        merged.append(merge(rng, [p, p], 'two copies interleaved'))
    threads = list(progs)
    rng.shuffle(threads)
    for p in threads:
        p.parts = [p]
    return [('interleaved', merged, {}), ('threads', threads, {'threads': 8, 'jobs': 4})]
