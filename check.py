#!/usr/bin/env python3
"""Decide one property by deterministic simulation of /repo's working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers K]
  check.py --replay FILE         re-execute a replay file, print its event log
  check.py ID --determinism N    N seeds, each run under several worker layouts,
                                 compare the event logs
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MAIN = os.path.join(HERE, 'sim', 'main.py')
JAR = '/usr/share/java/jython.jar'
JAVA = ['java', '-XX:-StackTraceInThrowable', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC', '-Xss4m', '-Xmx1200m',
        '-Dpython.cachedir.skip=true', '-jar', JAR, '-B', MAIN]
STALL = 150.0           # seconds without a finished run
KNOWN = os.path.join(HERE, 'known_findings.txt')

sys.path.insert(0, HERE)
import settings  # noqa: E402


def log(*a):
    print(*a, flush=True)


class Harness(Exception):
    pass


def clean_env():
    env = dict((k, v) for k, v in os.environ.items()
               if k in ('PATH', 'HOME', 'LANG', 'JAVA_HOME', 'TMPDIR'))
    env['LC_ALL'] = 'C'
    return env


class Worker(object):
    """One interpreter that executes the runs start, start+step, ..."""

    def __init__(self, scratch, args, tag):
        self.out = os.path.join(scratch, 'out.%s' % tag)
        self.err = os.path.join(scratch, 'err.%s' % tag)
        self.args = [a if a != '@OUT' else self.out for a in args]
        self.docs = []
        self.pos = 0
        self.begun = None
        self.buf = b''
        self.ended = False
        self.last = time.time()
        with open(self.err, 'wb') as e:
            self.proc = subprocess.Popen(
                JAVA + self.args, stdout=e, stderr=e, stdin=subprocess.DEVNULL,
                env=clean_env(), cwd=scratch, start_new_session=True)

    def poll(self):
        """New documents since the last call"""
        rc = self.proc.poll()
        new = []
        try:
            with open(self.out, 'rb') as f:
                f.seek(self.pos)
                data = f.read()
        except FileNotFoundError:
            data = b''
        if data:
            self.last = time.time()
            self.pos += len(data)
            self.buf += data
            *lines, self.buf = self.buf.split(b'\n')
            for line in lines:
                d = json.loads(line)
                if 'begin' in d:
                    self.begun = d['begin']
                else:
                    new.append(d)
        if rc is not None and not data:
            self.ended = True
        return new

    def kill(self):
        if self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
        self.proc.wait()

    def errors(self):
        try:
            with open(self.err, errors='replace') as f:
                return f.read()[-2000:]
        except OSError:
            return ''


def once(scratch, tag, args, timeout):
    """Run one worker command to its end and return its last document"""
    w = Worker(scratch, args, tag)
    docs = []
    t0 = time.time()
    try:
        while not w.ended and time.time() - t0 < timeout:
            docs += w.poll()
            time.sleep(0.02)
        docs += w.poll()
    finally:
        w.kill()
    docs = [d for d in docs if 'done' not in d]
    return docs, w


class Explorer(object):
    def __init__(self, prop, tier, seed, runs, workers, deadline, minimum, flags=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.nruns, self.deadline, self.minimum = runs, deadline, minimum
        self.flags = list(flags)
        self.k = max(1, min(workers, runs))
        self.scratch = tempfile.mkdtemp(prefix='oqsim-')
        self.known = read_known(prop)
        if self.known:
            with open(os.path.join(self.scratch, 'known.json'), 'w') as f:
                json.dump(self.known, f)
            self.flags.append('known=' + os.path.join(self.scratch, 'known.json'))
        self.counts = collections.Counter()
        self.states = set()
        self.digests = set()
        self.evals = self.nontrivial = self.lines = 0
        self.nontrivial_digests = set()
        self.simtime = 0.0
        self.cov = set()
        self.samples = []
        self.bad = {}           # run -> document of a violation
        self.known_hit = collections.Counter()
        self.errors = []
        self.t0 = time.time()
        self.all = {}

    def take(self, d, start):
        if 'fatal' in d:
            raise Harness('worker failed:\n' + d['fatal'])
        if 'run' not in d:
            return
        self.evals += 1
        self.lines += max(0, d['lines'])
        self.simtime += d['simtime']
        self.counts.update(d['counts'])
        self.states.update(d['states'])
        self.digests.add(d['digest'])
        self.cov.update(d.get('cov', ()))
        self.all[d['run']] = d['digest']
        if d['nontrivial']:
            self.nontrivial += 1
            self.nontrivial_digests.add(d['digest'])
        if d.get('error'):
            self.errors.append(d)
        elif d.get('violation'):
            k = self.match_known(d['violation'])
            if k is not None:
                self.known_hit[k] += 1
            else:
                d['worker'] = [start, self.k]
                self.bad[d['run']] = d
        elif d.get('events') and len(self.samples) < 3 and d['nontrivial']:
            self.samples.append(dict(run=d['run'], seed=d['seed'], events=d['events'][:60],
                                     faults=d['counts']))

    def match_known(self, v):
        for i, k in enumerate(self.known):
            if v['kind'] == k['kind'] and k['match'] in v['msg']:
                return i
        return None

    def explore(self):
        def start(k, first):
            return Worker(self.scratch, [
                'run', self.prop, str(self.seed), str(first), str(self.k), str(self.nruns),
                str(self.deadline), '@OUT'] + self.flags, '%d.%d' % (k, first))
        ws = {k: start(k, k) for k in range(self.k)}
        first_bad_at = None
        try:
            while ws:
                time.sleep(0.03)
                for k, w in list(ws.items()):
                    for d in w.poll():
                        self.take(d, k)
                    if w.ended:
                        for d in w.poll():
                            self.take(d, k)
                        del ws[k]
                        if w.proc.returncode != 0 and not self.bad:
                            raise Harness('worker %d ended with %s\n%s' % (
                                k, w.proc.returncode, w.errors()))
                    elif time.time() - w.last > STALL:
                        w.kill()
                        del ws[k]
                        self.stalled(k, w)
                if self.errors:
                    break
                if self.bad:
                    if first_bad_at is None:
                        first_bad_at = time.time()
                    low = min(self.bad)
                    if all(w.begun is not None and w.begun > low for w in ws.values()) \
                            or time.time() - first_bad_at > 60:
                        break
        finally:
            for w in ws.values():
                w.kill()
        if self.errors:
            e = self.errors[0]
            raise Harness('run %s: %s' % (e['run'], e['error']))

    def stalled(self, k, w):
        """A run that never ended: repeat it in a mode that ends the interpreter"""
        r = w.begun
        if r is None:
            raise Harness('worker did not start\n' + w.errors())
        docs, w2 = once(self.scratch, 'hard%d' % r, [
            'run', self.prop, str(self.seed), str(r), '1', str(r + 1), '600', '@OUT', 'hard'], STALL)
        for d in docs:
            if d.get('violation'):
                d['hard'] = True
                d['worker'] = [r, 1]
                self.bad[r] = d
                return
        if any('run' in d for d in docs):
            raise Harness('run %d stalled in a worker but not alone' % r)
        self.bad[r] = dict(run=r, hard=True, nodoc=True, worker=[r, 1], violation=dict(
            kind='no-progress', msg='the run does not end (%d s)' % STALL), tape=None, events=[])

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def read_known(prop):
    """open: property=C01 kind=<kind> match=<text in the message> :: what fails"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('open:'):
                continue
            head, _, what = line[5:].partition('::')
            head, _, match = head.partition(' match=')
            kw = dict(x.split('=', 1) for x in head.split())
            if kw.get('property') == prop:
                out.append(dict(kind=kw['kind'], match=match.strip(), what=what.strip()))
    return out


def report(ex):
    """Shrink the first violation, confirm its replay, write the replay file"""
    run = min(ex.bad)
    d = ex.bad[run]
    doc = dict(property=ex.prop, verif_seed=ex.seed, run=run, violation=d['violation'],
               tape=d.get('tape'), worker=d['worker'], hard=bool(d.get('hard')), how='tape')
    name = '%s-seed%d-run%d.json' % (ex.prop, ex.seed, run)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, name)

    def attempt(doc):
        with open(os.path.join(ex.scratch, 'doc.json'), 'w') as f:
            json.dump(doc, f)
        return replay(ex.scratch, os.path.join(ex.scratch, 'doc.json'), doc)

    note = ''
    original_len = len(doc['tape'] or [])
    if doc['tape'] is None:
        doc['how'] = 'sequence'
    elif not doc['hard']:
        with open(os.path.join(ex.scratch, 'doc.json'), 'w') as f:
            json.dump(doc, f)
        docs, w = once(ex.scratch, 'shrink', [
            'shrink', os.path.join(ex.scratch, 'doc.json'), '@OUT', '25'], 240)
        if docs and docs[-1].get('shrunk'):
            small = dict(doc, tape=docs[-1]['tape'], violation=docs[-1]['violation'])
            got = attempt(small)
            if got and got.get('violation') and got['violation']['kind'] == doc['violation']['kind']:
                doc = small
                note = 'minimised from %d to %d choices in %d attempts' % (
                    original_len, len(small['tape']), docs[-1]['tried'])
    got = attempt(doc)
    if not (got and got.get('violation') and
            got['violation']['kind'] == doc['violation']['kind']):
        if doc['how'] == 'tape':
            # depends on what ran before it in the same interpreter
            doc = dict(doc, how='sequence')
            got = attempt(doc)
        if not (got and got.get('violation')):
            note = 'THE REPLAY DID NOT REPRODUCE IT'
    if got:
        doc['events'] = got.get('events')
        doc['digest'] = got.get('digest')
        doc['counts'] = got.get('counts')
        if got.get('violation'):
            doc['violation'] = got['violation']
    doc['note'] = note
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    log('%s: %s' % (doc['violation']['kind'], doc['violation']['msg']))
    for e in (doc.get('events') or [])[-25:]:
        log('   ' + e)
    log('%s (run %d of seed %d)' % (note, run, ex.seed))
    log('VIOLATION property=%s replay=%s' % (ex.prop, path))


def replay(scratch, fname, doc):
    flags = ['hard'] if doc.get('hard') else []
    if doc['how'] == 'sequence':
        start, step = doc['worker']
        docs, w = once(scratch, 'replay', [
            'run', doc['property'], str(doc['verif_seed']), str(start), str(step),
            str(doc['run'] + 1), '100000', '@OUT', 'log'] + flags, 2 * STALL)
        docs = [d for d in docs if d.get('run') == doc['run']]
        if not docs and doc.get('hard'):
            return dict(violation=doc['violation'], events=[], digest='')
    else:
        docs, w = once(scratch, 'replay', ['replay', fname, '@OUT'] + flags, STALL)
    return docs[-1] if docs else None


def cmd_replay(fname):
    with open(fname) as f:
        doc = json.load(f)
    scratch = tempfile.mkdtemp(prefix='oqsim-')
    try:
        got = replay(scratch, os.path.abspath(fname), doc)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not got:
        log('replay gave no answer')
        return 2
    for e in got.get('events') or []:
        log(e)
    if got.get('error'):
        log('ERROR', got['error'])
        return 2
    v = got.get('violation')
    if not v:
        log('no violation')
        return 0
    log('%s: %s' % (v['kind'], v['msg']))
    if doc.get('digest'):
        log('event log %s the recorded one' % (
            'is identical to' if got['digest'] == doc['digest'] else 'DIFFERS from'))
    log('VIOLATION property=%s replay=%s' % (doc['property'], fname))
    return 1


def evidence(ex, violations):
    wall = time.time() - ex.t0
    conf = settings.PROPS[ex.prop]
    faults = {k[6:]: v for k, v in sorted(ex.counts.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(ex.counts.items()) if k.startswith('probe:')}
    other = {k: v for k, v in sorted(ex.counts.items()) if ':' not in k}
    lines = collections.Counter(c.split(':')[0] for c in ex.cov)
    samples = ex.samples or [dict(run=0, note='no non-trivial sample among the first runs')]
    doc = dict(
        property=ex.prop, tier=ex.tier, seed=ex.seed, level='exploration',
        wall_s=round(wall, 2), violations=violations,
        assumptions=settings.ASSUMPTIONS + conf.get('assumptions', []),
        coverage=dict(
            evaluations=ex.evals,
            distinct_nontrivial=len(ex.nontrivial_digests),
            rule=conf['rule'] + ' Distinct: different event log.',
            samples=samples,
            simulated_runs_per_hour=int(ex.evals / wall * 3600),
            seeds_per_hour=int(ex.evals / wall * 3600),
            simulated_seconds=round(ex.simtime, 3),
            faults_injected=faults, probes=probes, counters=other,
            distinct_states=len(ex.states), state_measure=conf['states'],
            distinct_event_logs=len(ex.digests),
            repository_lines_executed=ex.lines,
            repository_lines_reached=dict(sorted(lines.items())),
            workers=ex.k, runs_requested=ex.nruns,
            components_real=conf['real'], components_simulated=conf['stub'],
            known_findings_met={ex.known[i]['what']: n for i, n in ex.known_hit.items()}))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', ex.prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write('\n')
    return doc


def check(a):
    conf = settings.PROPS[a.prop]
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    runs = a.runs or conf['runs'][tier]
    deadline = a.deadline or settings.DEADLINE[tier]
    minimum = min(runs, settings.MINIMUM)
    ex = Explorer(a.prop, tier, seed, runs, a.workers, deadline, minimum)
    try:
        try:
            ex.explore()
        except Harness:
            if ex.bad:
                pass
            else:
                raise
        if not ex.bad and ex.evals < minimum:
            raise Harness('only %d of at least %d runs were executed' % (ex.evals, minimum))
        doc = evidence(ex, len(ex.bad))
        c = doc['coverage']
        log('%s: %d runs (%d distinct non-trivial), %d states, %.1f s, %d runs/h, faults %s' % (
            a.prop, c['evaluations'], c['distinct_nontrivial'], c['distinct_states'],
            doc['wall_s'], c['simulated_runs_per_hour'], sum(c['faults_injected'].values())))
        for k in ex.known:
            log('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
        if ex.bad:
            report(ex)
            return 1
        missing = [p for p in conf.get('must', ()) if not ex.counts.get(p)]
        if missing and tier == 'thorough':
            log('note: never met: %s' % missing)
        return 0
    finally:
        ex.close()


def determinism(a):
    """Every run under different worker layouts must give the same event log"""
    seed = a.seed or 1
    logs = {}
    bad = 0
    for k in (8, 3, 5):
        ex = Explorer(a.prop, 'quick', seed, a.determinism, k, 100000, 1)
        try:
            ex.explore()
        finally:
            ex.close()
        for r, dg in ex.all.items():
            if logs.setdefault(r, dg) != dg:
                bad += 1
                log('run %d differs with %d workers' % (r, k))
    log('%s: %d runs x 3 layouts, %d differences' % (a.prop, len(logs), bad))
    return 2 if bad else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier')
    p.add_argument('--seed', type=int)
    p.add_argument('--runs', type=int)
    p.add_argument('--deadline', type=float)
    p.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument('--replay')
    p.add_argument('--determinism', type=int)
    p.add_argument('--selftest', action='store_true')
    a = p.parse_args()
    try:
        if a.replay:
            return cmd_replay(a.replay)
        if a.selftest:
            # the interpreter, the simulator and the seeding work here
            a.prop, a.determinism = 'C06', 12
        if a.prop not in settings.PROPS:
            raise Harness('unknown property %s' % a.prop)
        if a.determinism:
            return determinism(a)
        return check(a)
    except Harness as e:
        log('CHECK FAILED: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
