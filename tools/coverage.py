#!/usr/bin/env python3
""" Which lines of the library do the recorded histories run?

    tools/coverage.py [PROPERTY...]     (slow: every call is traced)

Prints, per file of /repo, the executable lines that no history of the quick tier ran.
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)
from mon import run   # noqa: E402
import check          # noqa: E402

HIT = {}
_start = run.Session.start


def start(self, programs, threads=1):
    """ as Session.start, with tracing switched on in the configuration """
    dump = json.dump

    def with_trace(o, f, *a, **k):
        if isinstance(o, dict) and 'cases' in o:
            o = dict(o, trace=1, budget=o['budget'] * 20)
        return dump(o, f, *a, **k)
    json.dump = with_trace
    try:
        r = _start(self, programs, threads)
    finally:
        json.dump = dump
    fin = r.finish

    def finish(deadline):
        v = fin(time.time() + 7200)
        try:
            for f, l in json.load(open(r.base + '.log.lines')).items():
                f = f.split('/path/cryptopy/')[-1] if '/path/cryptopy/' in f else f.split(run.REPO + '/')[-1]
                HIT.setdefault(f, set()).update(l)
        except IOError:
            print('no trace from one process', file=sys.stderr)
        return v
    r.finish = finish
    return r


run.Session.start = start
for pid in sys.argv[1:] or ['C%02d' % i for i in range(1, 29)]:
    mod, passes = check.build(pid, 1, 'quick')
    for name, progs, opts in passes:
        progs = [p for p in progs if p.cost < 20] or progs
        o = run.execute(progs, deadline=time.time() + 7200, **opts)
        print(pid, name, o.judged, len(o.findings), file=sys.stderr, flush=True)
json.dump({f: sorted(l) for f, l in HIT.items()}, open('/tmp/coverage.json', 'w'))
stmts = json.loads(subprocess.check_output(['java', '-jar', run.JAR, os.path.join(VERIF, 'tools', 'stmts.py')] +
                                           [os.path.join(run.REPO, f) for f in sorted(HIT)]))
for f in sorted(HIT):
    src = open(os.path.join(run.REPO, f), encoding='latin-1').read().splitlines()
    want = stmts[os.path.join(run.REPO, f)]
    miss = [n for n in want if n not in HIT[f]]
    print('%s: %d of %d statements in functions ran' % (f, len(want) - len(miss), len(want)))
    for n in miss:
        print('   %4d %s' % (n, src[n - 1].rstrip()))
