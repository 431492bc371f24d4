""" Runs recorded-call programs against the real cryptopy code (Jython side).

    jython executor.py CONFIG.json

CONFIG: path    list of directories put in front of sys.path
        cases   file with one JSON program per line
        out     file the event log is appended to
        threads 1: programs one after another; N: N threads take programs
                from a shared queue and run them at the same time
        budget  CPU seconds the process may use without finishing a program
        trace   record the lines of the library that ran

A program is {"id": n, "steps": [...]}.  Each step is one call at the public
boundary of the library.  The log gets, per program, the line {"s": id} before
its first call and {"c": id, "e": [event per step]} after its last.  An event
is {"r": value}, {"x": [exception type, text]} or {"u": 1} (an operand it
needs was never produced); "m": 1 marks that the call changed a list that was
passed to it.
"""
import sys
sys.dont_write_bytecode = True
import json
import os
import operator
import threading
import time
import importlib
from java.lang import Throwable, Runtime, Thread, Runnable, StackOverflowError
from java.lang.management import ManagementFactory
from java.util.concurrent import CyclicBarrier, ConcurrentLinkedQueue
from java.util.concurrent.atomic import AtomicLong

CFG = json.load(open(sys.argv[1]))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.dirname(os.path.abspath(__file__))]
sys.path[0:0] = [str(p) for p in CFG['path']]

# ---------------------------------------------------------------- entropy tap
_real_urandom = os.urandom


class Entropy(object):
    """ os.urandom with an optional script: the next len(script) requests are
        answered with a repeated octet, later ones by the system; or with an
        optional stream, from which requests take their octets in turn """
    def __init__(self):
        self.script = []
        self.stream = ''
        self.served = 0     # octets requested since the last change

    def __call__(self, n):
        self.served += n
        if self.stream:
            if n <= len(self.stream):
                r, self.stream = self.stream[:n], self.stream[n:]
                return r
            self.stream = ''
        if self.script:
            c = self.script.pop(0)
            return (c * n)[:n]
        return _real_urandom(n)


ENTROPY = Entropy()
os.urandom = ENTROPY


# ------------------------------------------------------------------- values
class Undefined(Exception):
    pass


def dec(v, env):
    if isinstance(v, dict):
        (t, x), = v.items()
        if t == 'b':
            return str(x).decode('hex')
        if t == 'v':
            if x not in env:
                raise Undefined()
            return env[x]
        if t == 'l':
            return [dec(i, env) for i in x]
        if t == 't':
            return tuple([dec(i, env) for i in x])
        if t == 'L':
            return long(x)
        if t == 's':
            return str(x)
        if t == 'm':
            mod, name = x.split(':')
            m = importlib.import_module(mod)
            return getattr(m, name) if name else m
        raise ValueError(t)
    return v


def enc(v, depth=0):
    if v is None or v is True or v is False:
        return v
    if isinstance(v, (int, long)):
        return v
    if isinstance(v, str):
        return {'b': v.encode('hex')}
    if isinstance(v, unicode):
        return {'u': v}
    if isinstance(v, float):
        return {'f': repr(v)}
    if depth > 6:
        return {'o': 'deep'}
    if isinstance(v, (list, tuple)):
        return {'l': [enc(i, depth + 1) for i in v]}
    if isinstance(v, dict):
        return {'d': [[enc(k, depth + 1), enc(x, depth + 1)] for k, x in v.items()]}
    if hasattr(v, 'numerator') and hasattr(v, 'denominator'):
        return {'q': [v.numerator, v.denominator]}
    if hasattr(v, 'curve') and hasattr(v, 'x') and hasattr(v, 'y'):
        try:
            ident = bool(v == v.curve.IDENTITY)
        except AttributeError:
            ident = bool(v == v.curve.identity())
        return {'pt': 'O' if ident else [enc(v.x, depth + 1), enc(v.y, depth + 1)]}
    if hasattr(v, 'gf') and hasattr(v, 'value'):
        return {'e': [enc(int(v)), enc(v.gf.p)]}
    if type(v).__name__ in ('Element_of_GFp', 'instance') and hasattr(v, '__int__'):
        return {'e': [enc(int(v)), None]}
    return {'o': type(v).__name__}


def freeze(v):
    """ snapshot of the lists inside an argument """
    if isinstance(v, list):
        return ['l'] + [freeze(i) for i in v]
    if isinstance(v, tuple):
        return ['t'] + [freeze(i) for i in v]
    return v if isinstance(v, (int, long, str, float)) else None


def scribble(v):
    """ the caller goes on to use the lists it got or passed for something else """
    if isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v.clear()
    if isinstance(v, list):
        v[:] = ['scribbled'] * 3


OPS = dict((n, getattr(operator, n)) for n in
           'add sub mul div mod neg xor eq ne lt le gt ge pow getitem iadd isub imul idiv ixor ipow'.split())
OPS['len'] = len
OPS['int'] = int
OPS['str'] = str
OPS['bool'] = bool
OPS['list'] = list
OPS['sorted'] = sorted
OPS['setitem'] = operator.setitem
OPS['append'] = lambda l, x: l.append(x)
OPS['pop'] = lambda l: l.pop()
OPS['names'] = lambda l: [getattr(c, '__name__', '?') for c in l]


def find(path):
    mod, name = path.split(':')
    return getattr(importlib.import_module(mod), name)


SEQ = AtomicLong()


def run_step(st, env):
    ev = {}
    try:
        f = st['f']
        if f == 'par':
            return run_par(st, env)
        a = [dec(x, env) for x in st.get('a', ())]
        k = dict((str(n), dec(x, env)) for n, x in st.get('k', {}).items())
        if f[0] == '.':
            if st['o'] not in env:
                raise Undefined()
            fn = getattr(env[st['o']], f[1:])
        elif f[0] == '@':
            if st['o'] not in env:
                raise Undefined()
            fn, a = getattr, [env[st['o']], f[1:]]
        elif f.startswith('op:'):
            fn = OPS[f[3:]]
        elif f.startswith('val:'):
            fn, a = find, [f[4:]]
        elif f == 'call':
            fn, a = a[0], a[1:]
        elif f == 'curve':
            fn = make_curve
        elif f == 'entropy':
            fn = set_entropy
        elif f == 'drop':
            env.pop(st['o'], None)
            return {'r': None}
        else:
            fn = find(f)
        before = [freeze(x) for x in a] if 'l' in json.dumps(st.get('a', ())) else None
        if st.get('seq'):
            ev['t0'] = SEQ.getAndIncrement()
        r = [fn(*a, **k) for _ in xrange(st['rep'])] if 'rep' in st else fn(*a, **k)
        if st.get('seq'):
            ev['t1'] = SEQ.getAndIncrement()
        if before is not None and [freeze(x) for x in a] != before:
            ev['m'] = 1
        if 'd' in st:
            env[st['d']] = r
        if not st.get('q'):
            ev['r'] = enc(r)
        else:
            ev['r'] = {'o': 'quiet'}
        if st.get('z'):
            scribble(r)
            for x in a:
                scribble(x)
    except Undefined:
        ev['u'] = 1
    except Throwable as t:
        ev['x'] = [t.getClass().getName(), unicode(t.getMessage())[:200]]
    except:
        et, e = sys.exc_info()[:2]
        try:
            msg = str(e)
        except Throwable:
            msg = '?'
        except:
            msg = '?'
        ev['x'] = [getattr(et, '__name__', str(et)), repr(msg[:200])]
    return ev


def make_curve(base, params, inst=True):
    """ a user-defined curve: a subclass of one of the library's curve classes """
    ns = dict((str(k), v) for k, v in params)
    cls = type('UserCurve', (base,), ns)
    return cls() if inst else cls


def set_entropy(script, stream=False):
    ENTROPY.script = [] if stream else list(script)
    ENTROPY.stream = script if stream else ''
    n, ENTROPY.served = ENTROPY.served, 0
    return 'served %d' % n


class Par(Runnable):
    def __init__(self, steps, env, barrier):
        self.steps, self.env, self.barrier, self.ev = steps, env, barrier, []

    def run(self):
        self.barrier.await()
        for s in self.steps:
            self.ev.append(run_step(s, self.env))


def run_par(st, env):
    lanes = st['lanes']
    b = CyclicBarrier(len(lanes))
    ps = [Par(l, dict(env), b) for l in lanes]
    ts = [Thread(None, p, 'lane', 64 << 20) for p in ps]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return {'lanes': [p.ev for p in ps]}


LINES = {}


def tracer(frame, what, arg):
    """ which lines of the library ran (tools/coverage.py only) """
    f = frame.f_code.co_filename
    if f not in LINES:
        p = os.path.abspath(f)
        LINES[f] = set() if '/path/cryptopy/' in p or '/analysis/' in p else None
    s = LINES[f]
    if s is None:
        return None
    s.add(frame.f_lineno)
    return tracer


OUT = open(CFG['out'], 'ab')
LOCK = threading.Lock()
DONE = AtomicLong()


def emit(o):
    s = json.dumps(o) + '\n'
    with LOCK:
        OUT.write(s)
        OUT.flush()


class Worker(Runnable):
    def __init__(self, queue, barrier):
        self.queue, self.barrier = queue, barrier

    def run(self):
        self.barrier.await()
        if CFG.get('trace'):
            sys.settrace(tracer)
        while True:
            line = self.queue.poll()
            if line is None:
                return
            c = json.loads(line)
            emit({'s': c['id']})
            env = {}
            t = time.time()
            evs = [run_step(s, env) for s in c['steps']]
            env.clear()
            emit({'c': c['id'], 'e': evs, 'ms': int((time.time() - t) * 1000)})
            DONE.incrementAndGet()


def main():
    q = ConcurrentLinkedQueue()
    for line in open(CFG['cases']):
        if line.strip():
            q.add(line)
    for m in CFG.get('preload', ()):    # first imports do not race
        try:
            importlib.import_module(m)
        except:
            pass
    n = CFG.get('threads', 1)
    b = CyclicBarrier(n)
    ts = [Thread(None, Worker(q, b), 'w%d' % i, 64 << 20) for i in range(n)]
    for t in ts:
        t.setDaemon(True)
    osb = ManagementFactory.getOperatingSystemMXBean()
    import java.lang.management
    cpu = lambda: osb.getProcessCpuTime() / 1e9
    done, mark = 0, cpu()
    for t in ts:
        t.start()
    for t in ts:
        while t.isAlive():
            t.join(200)
            now = cpu()
            if DONE.get() != done:
                done, mark = DONE.get(), now
            elif now - mark > CFG['budget']:
                emit({'hang': now - mark})
                Runtime.getRuntime().halt(3)
    if CFG.get('trace'):
        with open(CFG['out'] + '.lines', 'w') as o:
            json.dump(dict((f, sorted(l)) for f, l in LINES.items() if l), o)
    emit({'end': 1})
    OUT.close()
    Runtime.getRuntime().halt(0)


main()
