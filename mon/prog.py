""" Programs of recorded calls, and the expectations the monitor holds them to.

A Prog is a history of calls at the public boundary of the library.  It is
executed by executor.py (Jython, the real code); the monitor then looks at the
recorded events and compares them with what the oracle says each call has to
return.  Nothing here knows how the library computes its results.
"""
import ast
import json
import random


class V(object):
    """ a variable: the result of an earlier step (kept inside the executor) """
    def __init__(self, name):
        self.name = name


class M(object):
    """ a name defined in a library module, 'package.module:name' """
    def __init__(self, path):
        self.path = path


class L(object):
    """ an integer passed as a Python 2 long """
    def __init__(self, n):
        self.n = n


class S(object):
    """ a text value (method names, versions); plain bytes are octet strings """
    def __init__(self, s):
        self.s = s


LONG = random.Random(0)     # which small integers are passed as a Python 2 long


def enc(v):
    if type(v) is int and -2 ** 31 <= v < 2 ** 31 and LONG.randrange(5) == 0:
        return {'L': v}
    if v is None or v is True or v is False or isinstance(v, int):
        return v
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, V):
        return {'v': v.name}
    if isinstance(v, M):
        return {'m': v.path}
    if isinstance(v, L):
        return {'L': v.n}
    if isinstance(v, S):
        return {'s': v.s}
    if isinstance(v, str):
        return {'s': v}
    if isinstance(v, list):
        return {'l': [enc(i) for i in v]}
    if isinstance(v, tuple):
        return {'t': [enc(i) for i in v]}
    raise TypeError(v)


class Obj(object):
    """ a result the log only names by its type """
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s>' % self.t


class Frac(tuple):
    pass


class Pt(object):
    """ a curve point in the log: affine pair or the identity """
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'identity' if self.v == 'O' else 'point(%r,%r)' % tuple(self.v)


class El(object):
    """ a field element in the log """
    def __init__(self, v, p):
        self.v, self.p = v, p

    def __repr__(self):
        return '%r in GF(%r)' % (self.v, self.p)


def dec(v):
    if isinstance(v, dict):
        (t, x), = v.items()
        if t == 'b':
            return bytes.fromhex(x)
        if t == 'u':
            try:
                return x.encode('latin-1')
            except UnicodeError:
                return Obj('unicode')
        if t == 'f':
            return float(x)
        if t == 'l':
            return [dec(i) for i in x]
        if t == 'd':
            return {freeze(dec(k)): dec(i) for k, i in x}
        if t == 'q':
            return Frac(x)
        if t == 'pt':
            return Pt('O' if x == 'O' else [dec(i) for i in x])
        if t == 'e':
            return El(dec(x[0]), dec(x[1]))
        return Obj(x)
    return v


def freeze(v):
    return tuple(freeze(i) for i in v) if isinstance(v, list) else v


def norm(v):
    """ lists and tuples are alike, and so are int, long and integral floats """
    if isinstance(v, (list, tuple)) and not isinstance(v, Frac):
        return [norm(i) for i in v]
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


def show(v, n=160):
    s = v.hex() if isinstance(v, bytes) else repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


# ------------------------------------------------------------- expectations
class Raised(object):
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return 'raised %s: %s' % tuple(self.x)


def result(ev):
    """ what a call did: its value, Raised, or None for a call never made """
    if 'x' in ev:
        return Raised(ev['x'])
    return dec(ev.get('r'))


def ok(ev):
    if 'x' in ev:
        return 'raised %s: %s, expected a result' % tuple(ev['x'])


def eq(want):
    want = norm(want)

    def check(ev):
        if 'x' in ev:
            return 'raised %s: %s, expected %s' % (ev['x'][0], ev['x'][1], show(want))
        got = norm(dec(ev['r']))
        if isinstance(got, Obj) or type(got) is not type(want) or got != want:
            return 'returned %s, expected %s' % (show(got), show(want))
    check.want = want
    return check


def refused(ev):
    if 'x' not in ev:
        return 'returned %s, expected a refusal (an exception)' % show(dec(ev['r']))


def sealed(secret):
    """ refused, and the text of the exception does not hold the secret octets """
    def check(ev):
        if 'x' not in ev:
            return refused(ev)
        if len(set(secret)) >= 8:
            text = str(ev['x'][1])
            try:
                text = ast.literal_eval(text)
            except (ValueError, SyntaxError):
                pass
            s = secret[:12]
            for form in (s.decode('latin-1'), s.hex(), repr(s)[2:-1], repr(repr(s)[2:-1])[1:-1]):
                if form in text or form in text.lower():
                    return 'refused, but the exception released the plaintext: %s' % text
    return check


def never(ev):
    """ for a call that must not produce anything: raised, or not even reached """
    if 'u' not in ev and 'x' not in ev:
        return 'returned %s, expected no result at all' % show(dec(ev['r']))


def eq_or_refused(want):
    c = eq(want)
    return lambda ev: None if 'x' in ev else c(ev)


def pred(fn, text):
    def check(ev):
        if 'x' in ev:
            return 'raised %s: %s, expected %s' % (ev['x'][0], ev['x'][1], text)
        got = dec(ev['r'])
        try:
            good = fn(got)
        except Exception as e:      # a value of a shape the predicate cannot read
            return 'returned %s, expected %s' % (show(got), text)
        if not good:
            return 'returned %s, expected %s' % (show(got), text)
    return check


def truth(want):
    return pred(lambda r: not isinstance(r, (Obj, bytes)) and bool(r) == want,
                'a %s value' % ('true' if want else 'false'))


def is_pt(want):
    """ want: (x, y) or None for the identity """
    def check(ev):
        w = 'identity' if want is None else 'point(%d,%d)' % want
        if 'x' in ev:
            return 'raised %s: %s, expected %s' % (ev['x'][0], ev['x'][1], w)
        got = dec(ev['r'])
        if isinstance(got, Pt):
            if want is None and got.v == 'O':
                return None
            if want is not None and got.v != 'O' and list(got.v) == list(want):
                return None
        return 'returned %s, expected %s' % (show(got), w)
    return check


def el(value, p):
    def check(ev):
        if 'x' in ev:
            return 'raised %s: %s, expected %d in GF(%d)' % (ev['x'][0], ev['x'][1], value, p)
        got = dec(ev['r'])
        if not (isinstance(got, El) and got.v == value and got.p in (p, None)):
            return 'returned %s, expected %d in GF(%d)' % (show(got), value, p)
    return check


class Prog(object):
    """ one recorded history """
    cost = 1.0

    def __init__(self, tag, cost=1.0, nt=True):
        self.tag, self.cost, self.nt = tag, cost, nt
        self.steps, self.exp, self.judges = [], [], []
        self.entropy = False
        self.keep = False

    def _add(self, st, expect, allow_mut=False):
        self.steps.append(st)
        self.exp.append((expect, allow_mut))
        return len(self.steps) - 1

    def call(self, f, *a, **kw):
        """ kw: d (name of the result), q (do not log it), k (keyword
            arguments), expect (default: no exception), mut (may change lists) """
        st = {'f': f, 'a': [enc(x) for x in a]}
        if kw.get('k'):
            st['k'] = {n: enc(x) for n, x in kw['k'].items()}
        for n in ('d', 'q', 'o', 'seq', 'z', 'rep'):
            if kw.get(n):
                st[n] = kw[n]
        return self._add(st, kw.get('expect', ok), kw.get('mut', False))

    def new(self, d, f, *a, **kw):
        return self.call(f, *a, d=d, q=1, **kw)

    def on(self, o, meth, *a, **kw):
        return self.call('.' + meth, *a, o=o, **kw)

    def attr(self, o, name, **kw):
        return self.call('@' + name, o=o, **kw)

    def op(self, name, *a, **kw):
        return self.call('op:' + name, *a, **kw)

    def scripted(self, *octets):
        self.entropy = True
        return self._add({'f': 'entropy', 'a': [{'l': [enc(bytes([o]) if isinstance(o, int) else o) for o in octets]}]}, ok, True)

    def stream(self, octets):
        """ entropy requests take their octets from here, as far as it goes """
        self.entropy = True
        return self._add({'f': 'entropy', 'a': [enc(octets), True]}, ok, True)

    def curve(self, d, base, params, inst=True):
        return self._add({'f': 'curve', 'd': d, 'q': 1,
                          'a': [{'m': base}, {'l': [{'l': [{'s': k}, enc(v)]} for k, v in params.items()]}, inst]}, ok)

    def par(self, lanes):
        """ lanes: list of Progs run at the same time, each on its own thread """
        st = {'f': 'par', 'lanes': [l.steps for l in lanes]}
        exps = [l.exp for l in lanes]

        def check(ev):
            if 'lanes' not in ev:
                return 'lanes did not run: %r' % (ev,)
            for i, (es, xs) in enumerate(zip(ev['lanes'], exps)):
                for j, (e, x) in enumerate(zip(es, xs)):
                    m = judge_event(e, x)
                    if m:
                        return 'lane %d call %d (%s): %s' % (i, j, describe(lanes[i].steps[j]), m)
        self.lanes = getattr(self, 'lanes', 0) + len(lanes)
        return self._add(st, check, True)

    def judge(self, fn):
        """ fn(list of results) -> None or what is wrong """
        self.judges.append(fn)

    def key(self):
        return json.dumps(self.steps, sort_keys=True)


def judge_event(ev, exp):
    expect, allow_mut = exp
    if ev.get('u') and expect in (never, None):
        return None
    if ev.get('u'):
        return 'an operand this call needs was never produced'
    if expect is not None:
        m = expect(ev)
        if m:
            return m
    if ev.get('m') and not allow_mut:
        return 'changed a list that the caller passed to it'
    return None


def describe(st):
    a = json.dumps(st.get('a', []))
    return '%s%s(%s%s)' % (st.get('o', ''), st['f'], a[:300] + ('...' if len(a) > 300 else ''),
                           ', ' + json.dumps(st['k'])[:200] if st.get('k') else '')


def judge(prog, evs):
    """ the first thing wrong in a recorded history, or None """
    for i, (st, ev, ex) in enumerate(zip(prog.steps, evs, prog.exp)):
        m = judge_event(ev, ex)
        if m:
            return 'call %d: %s %s' % (i, describe(st), m)
    for fn in prog.judges:
        m = fn([result(e) for e in evs])
        if m:
            return m
    return None
