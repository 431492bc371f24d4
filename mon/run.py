""" Runs programs in Jython processes and judges the event logs. """
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import prog as P

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/usr/share/java/jython.jar'
BUDGET = 90.0          # CPU seconds a process may burn without finishing one call history
WALL = 800.0


TIMES = {}             # milliseconds of the last runs, by program number


class Broken(Exception):
    """ the machinery could not decide """


def jython_cmd(script, cfg):
    return ['java', '-Xmx1500m', '-Xss8m', '-XX:+UseSerialGC', '-Dpython.cachedir.skip=true',
            '-jar', JAR, '-B', script, cfg]


class Session(object):
    """ a scratch directory with the import path of the library """
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='cryptopy-mon-')
        self.path = os.path.join(self.dir, 'path')
        os.mkdir(self.path)
        os.symlink(REPO, os.path.join(self.path, 'cryptopy'))
        self.t0 = time.time()
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self, programs, threads=1):
        """ programs: list of (id, steps) """
        self.n += 1
        base = os.path.join(self.dir, 'r%d' % self.n)
        with open(base + '.cases', 'w') as f:
            for i, steps in programs:
                f.write(json.dumps({'id': i, 'steps': steps}) + '\n')
        mods = set()
        if threads > 1:
            for i, steps in programs:
                mods.update(re.findall(r'"(?:val:)?([A-Za-z_][\w.]{0,60}):[A-Za-z_]', json.dumps(steps)))
        cfg = {'preload': sorted(mods - {'op', 'val'}),
               'path': [self.path, os.path.join(VERIF, 'shims'), os.path.join(REPO, 'analysis')],
               'cases': base + '.cases', 'out': base + '.log', 'threads': threads,
               'budget': BUDGET * (1 + (threads - 1) * 0.5)}
        json.dump(cfg, open(base + '.json', 'w'))
        env = {k: v for k, v in os.environ.items() if not k.startswith('JYTHON') and k not in ('PYTHONPATH', 'CLASSPATH')}
        env['TZ'] = 'UTC'
        p = subprocess.Popen(jython_cmd(os.path.join(HERE, 'executor.py'), base + '.json'),
                             cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                             stdout=open(base + '.stdout', 'wb'), stderr=subprocess.STDOUT, start_new_session=True)
        return Running(p, base, [i for i, s in programs], dict(programs), threads)


class Running(object):
    def __init__(self, p, base, ids, programs, threads):
        self.p, self.base, self.ids, self.programs, self.threads = p, base, ids, programs, threads

    def finish(self, deadline):
        """ -> events {id: [event]}, status 'end'|'hang'|'crash', started-not-done ids """
        try:
            self.p.wait(max(1.0, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            return self.read('timeout')
        return self.read('crash')

    def read(self, status):
        evs, started = {}, []
        try:
            with open(self.base + '.log') as f:
                for line in f:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if 's' in o:
                        started.append(o['s'])
                    elif 'c' in o:
                        evs[o['c']] = o['e']
                        TIMES[o['c']] = o.get('ms', 0)
                    elif 'hang' in o:
                        status = 'hang'
                    elif 'end' in o:
                        status = 'end'
        except IOError:
            pass
        open_ids = [i for i in started if i not in evs]
        return evs, status, open_ids

    def tail(self):
        try:
            return open(self.base + '.stdout', errors='replace').read()[-600:]
        except IOError:
            return ''


class Finding(object):
    def __init__(self, pid, message, history, threads):
        self.pid, self.message, self.history, self.threads = pid, message, history, threads


class Outcome(object):
    def __init__(self):
        self.findings = []
        self.events = 0
        self.judged = 0
        self.by_tag = {}
        self.exceptions = 0
        self.keys = set()
        self.samples = []
        self.procs = 0
        self.restarts = 0
        self.missing = 0
        self.lanes = 0
        self.kept = {}


def shard(progs, n):
    """ greedy by cost, order inside a shard kept; deterministic """
    loads = [0.0] * n
    parts = [[] for _ in range(n)]
    for i in sorted(range(len(progs)), key=lambda i: (-progs[i].cost, i)):
        k = loads.index(min(loads))
        loads[k] += progs[i].cost
        parts[k].append(i)
    return [sorted(p) for p in parts if p]


def execute(progs, jobs=8, threads=1, deadline=None, out=None, order=None, stop_after=8):
    """ Runs every program, judges it, returns an Outcome. """
    out = out or Outcome()
    deadline = deadline or time.time() + WALL
    ses = Session()
    try:
        parts = shard(progs, min(jobs, max(1, len(progs)))) if order is None else order
        todo = [(part, 0) for part in parts]
        running = []
        while todo or running:
            while todo:
                part, attempt = todo.pop(0)
                running.append((ses.start([(i, progs[i].steps) for i in part], threads), part, attempt))
                out.procs += 1
            r, part, attempt = running.pop(0)
            evs, status, open_ids = r.finish(deadline)
            for k, i in enumerate(part):
                if i in evs:
                    account(out, progs[i], evs[i])
                    if progs[i].keep:
                        out.kept[i] = [P.result(e) for e in evs[i]]
                    m = P.judge(progs[i], evs[i])
                    if m:
                        out.findings.append(Finding(i, m, part if threads > 1 else part[:k + 1], threads))
            if status == 'end':
                continue
            rest = [i for i in part if i not in evs and i not in open_ids]
            if status == 'hang':
                for i in open_ids:
                    out.findings.append(Finding(i, 'no result after %d CPU seconds' % BUDGET,
                                                part if threads > 1 else part[:part.index(i) + 1], threads))
            elif status == 'timeout':
                if out.findings:
                    out.missing += len(rest) + len(open_ids)
                    continue
                raise Broken('out of time with %d programs left: %s' % (len(rest) + len(open_ids), r.tail()))
            else:                       # the process died: try the open programs once more
                if attempt >= 2 or not open_ids and attempt:
                    raise Broken('executor ended early: ' + r.tail())
                rest = open_ids + rest
            if rest and len(out.findings) < stop_after and attempt < 2:
                out.restarts += 1
                todo.append((rest, attempt + 1))
            else:
                out.missing += len(rest)
    finally:
        ses.close()
    return out


def alone_ok(parts, deadline):
    """ do these histories pass, each in a process of its own? """
    for i in range(0, len(parts), 8):
        o = execute(parts[i:i + 8], order=[[k] for k in range(len(parts[i:i + 8]))], deadline=deadline)
        if o.findings or o.judged < len(parts[i:i + 8]):
            return False
    return True


def account(out, prog, evs):
    n = 0
    flat = []
    for e in evs:
        flat.extend(x for l in e['lanes'] for x in l) if 'lanes' in e else flat.append(e)
    for e in flat:
        n += 1
        if 'x' in e:
            out.exceptions += 1
    out.events += n
    out.judged += 1
    out.lanes += getattr(prog, 'lanes', 0)
    out.by_tag[prog.tag] = out.by_tag.get(prog.tag, 0) + 1
    if prog.nt:
        out.keys.add(hash(prog.key()))
    if len(out.samples) < 3 and prog.nt and (out.judged % 7 == 1):
        out.samples.append({'class': prog.tag, 'calls': [P.describe(s)[:400] for s in prog.steps[:6]],
                            'recorded': [json.dumps(e)[:300] for e in evs[:6]]})
