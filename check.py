#!/usr/bin/env python3
""" check.py PROPERTY            decide one property on /repo's working tree
    check.py --replay FILE       re-run the history a violation recorded

    environment: VERIF_SEED, VERIF_TIER (quick | thorough)
    exit 0 held on everything observed, 1 violated, 2 not decided
"""
import importlib
import json
import os
import random
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from mon import run, prog   # noqa: E402

MORE = float(os.environ.get('VERIF_MORE_S', '1200'))     # thorough: no further round is begun after so long
sys.setrecursionlimit(10000)
sys.set_int_max_str_digits(0)


def known_findings(pid):
    """ entries 'known: property=<id> tag=<class> <what fails>' """
    out = []
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        if line.startswith('known: property=%s ' % pid):
            rest = line.split(' ', 2)[2].strip()
            tag, text = rest.split(' ', 1)
            out.append((tag.split('=', 1)[1], text))
    return out


def build(pid, seed, tier, again=0):
    """ the thorough tier goes on with further rounds of the quick one, each of other histories """
    mod = importlib.import_module('mon.props.' + pid.lower())
    if again:
        seed, tier = '%d+%d' % (seed, again), 'quick'
    rng = random.Random('%s/%s/%s' % (pid, seed, tier))
    prog.LONG.seed('%s/%s' % (pid, seed))
    return mod, mod.plan(rng, tier)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    t0 = time.time()
    mod, passes = build(pid, seed, tier)
    gen_s = time.time() - t0
    out = run.Outcome()
    deadline = t0 + (840 if tier == 'quick' else 5 * 3600)
    found = []
    want = rounds = 0
    counts = {}
    while True:
        for name, progs, opts in passes:
            before = len(out.findings)
            run.execute(progs, out=out, deadline=deadline, **opts)
            want += len(progs)
            counts[name] = counts.get(name, 0) + len(progs)
            if hasattr(mod, 'cross') and len(out.findings) == before:
                for i, m in mod.cross(name, progs, out.kept):
                    out.findings.append(run.Finding(i, m, [i], 1))
            out.kept.clear()
            if getattr(mod, 'CONFIRM_ALONE', False) and len(out.findings) > before:
                out.findings[before:] = [f for f in out.findings[before:][:24] if run.alone_ok(progs[f.pid].parts, deadline)]
            for f in out.findings[before:]:
                found.append((name, progs, f, rounds))
        rounds += 1
        if tier == 'quick' or found or time.time() - t0 > MORE:
            break
        t1 = time.time()
        passes = build(pid, seed, tier, rounds)[1]
        gen_s += time.time() - t1
    known = known_findings(pid)
    seen, violations = {}, []
    for name, progs, f, again in found:
        tag = progs[f.pid].tag
        for t, text in known:
            if t == tag:
                seen[text] = seen.get(text, 0) + 1
                break
        else:
            violations.append((name, progs, f, again))
    for text in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': out.judged, 'distinct_nontrivial': len(out.keys),
              'rule': mod.RULE, 'samples': out.samples or [{'none': True}],
              'recorded_calls': out.events, 'calls_that_raised': out.exceptions,
              'histories_per_class': dict(sorted(out.by_tag.items())),
              'concurrent_lanes': out.lanes,
              'processes': out.procs, 'restarts': out.restarts, 'not_reached': out.missing,
              'passes': sorted(map(list, counts.items())), 'rounds': rounds},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
              'the oracle in /verif/mon/oracle and the Jython 2.7 runtime are right',
              'nothing is claimed about inputs and histories that were not run'],
          'wall_s': round(time.time() - t0, 1), 'oracle_s': round(gen_s, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if violations:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for n, (name, progs, f, again) in enumerate(violations[:5]):
            path = os.path.join(VERIF, 'replay', '%s-%d.json' % (pid, n))
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'pass': name, 'program': f.pid, 'round': again,
                       'message': f.message, 'class': progs[f.pid].tag, 'threads': f.threads,
                       'history': f.history, 'steps': progs[f.pid].steps}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  [%s] %s' % (progs[f.pid].tag, f.message[:600]))
        if len(violations) > 5:
            print('  ... and %d more' % (len(violations) - 5))
        return 1
    if out.judged < want or not out.events:
        print('INCONCLUSIVE property=%s: %d of %d histories observed' % (pid, out.judged, want))
        return 2
    print('held property=%s tier=%s seed=%d: %d histories (%d distinct), %d recorded calls, %.1f s' % (
        pid, tier, seed, out.judged, len(out.keys), out.events, time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    mod, passes = build(r['property'], r['seed'], r['tier'], r.get('round', 0))
    progs, = [p for n, p, o in passes if n == r['pass']]
    i = r['program']
    out = run.execute([progs[i]], jobs=1)
    if not out.findings:
        print('not reproduced alone; with the recorded history before it:')
        out = run.execute(progs, jobs=1, threads=r['threads'], order=[r['history']])
        out.findings = [f for f in out.findings if f.pid == i]
    for f in out.findings:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        print('  ' + f.message[:2000])
    print('recorded message was: ' + r['message'][:2000])
    return 1 if out.findings else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except run.Broken as e:
        print('NOT DECIDED: %s' % e)
        sys.exit(2)
