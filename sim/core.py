# Deterministic simulation core (Python 2.7 / Jython).
#
# One integer decides everything: every choice of a run is a draw from a
# "tape".  When a run is generated the tape is filled by a PRNG seeded from
# (VERIF_SEED, property, run number); when it is replayed or shrunk the tape
# is given and draws beyond its end are 0.  0 is always the simplest choice
# (no fault, first candidate, no preemption), so that shrinking the tape
# shrinks the schedule, the fault sequence and the workload together.
import sys
import hashlib
import threading
from java.util import SplittableRandom
from java.util.concurrent import Semaphore
from java.lang import System, Thread as JThread

REPO = '/repo'


class Violation(BaseException):
    """The property under check does not hold in this run"""
    def __init__(self, kind, msg):
        BaseException.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(BaseException):
    """The simulator itself is wrong, or met something it does not model"""


class SimKilled(BaseException):
    """The simulated process was killed: no more effects are possible"""


class SimHang(BaseException):
    """A run used up its budget of executed lines"""


class Unfinished(BaseException):
    """Raised in parked simulated threads to unwind them at end of run"""


CURRENT = [None]


def current():
    return CURRENT[0]


def text(obj, limit=300):
    """A printable, deterministic, ASCII rendering"""
    if isinstance(obj, unicode):
        s = obj.encode('ascii', 'backslashreplace')
    elif isinstance(obj, str):
        s = obj.encode('string_escape')
    else:
        try:
            s = repr(obj)
        except Exception as e:
            s = '<unprintable %s>' % e.__class__.__name__
        if isinstance(s, unicode):
            s = s.encode('ascii', 'backslashreplace')
    s = s.replace('\n', '\\n')
    # object addresses are not deterministic
    i = s.find(' at 0x')
    while i >= 0:
        j = i + 6
        while j < len(s) and s[j] in '0123456789abcdefABCDEFL':
            j += 1
        s = s[:i] + s[j:]
        i = s.find(' at 0x')
    if len(s) > limit:
        s = s[:limit] + '...(%d)' % len(s)
    return s


def exc_text(e):
    return '%s(%s)' % (e.__class__.__name__, ', '.join(text(a, 120) for a in getattr(e, 'args', ())))


def mkseed(*parts):
    h = hashlib.sha1('|'.join(map(str, parts))).hexdigest()
    return long(h[:15], 16)


class Sim(object):
    # more lines of repository code than this in one run is a hang
    line_budget = 400000

    def __init__(self, prop, seed=None, tape=None, hard=None, cov=None):
        self.prop = prop
        self.seed = seed
        self.given = tape
        self.rnd = SplittableRandom(seed) if tape is None else None
        self.tape = []
        self.events = []
        self.counts = {}      # fault kinds, probes
        self.violation = None
        self.lines = 0
        self.cov = cov
        self.importing = 0    # no preemption while a module is imported
        self.hard = hard      # callback for hangs that swallow exceptions
        self.now = 1.4e9      # simulated wall clock, seconds
        self.simtime = 0.0    # simulated time that passed
        self.nontrivial = False
        self.states = set()   # distinct states/interleavings of this run
        self.threads = None
        self.hash_count = 0
        self.hash_mult = 1
        self.fs = None
        self.state = {}       # scratch for stubs
        self.max_events = 4000

    # ---- choices
    def draw(self, n, label=''):
        """An integer in range(n); 0 is the simplest choice"""
        if n <= 1:
            return 0
        i = len(self.tape)
        if self.given is None:
            v = self.rnd.nextInt(n)
        else:
            v = self.given[i] if i < len(self.given) else 0
            if v >= n:
                v = v % n
        self.tape.append(v)
        if i > 200000:
            raise HarnessError('tape too long (%s)' % label)
        return v

    def chance(self, num, den=100):
        """True with probability num/den; False is the simple outcome"""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def pick(self, *seq):
        return seq[self.draw(len(seq))]

    def intrange(self, lo, hi):
        """lo <= x <= hi, lo is the simplest"""
        return lo + self.draw(hi - lo + 1)

    def shuffled(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.chance(num, den)]

    # ---- history
    def log(self, *what):
        if len(self.events) < self.max_events:
            self.events.append(' '.join(
                w if isinstance(w, str) and w.isalnum() else text(w, 160)
                for w in what))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def probe(self, name):
        self.count('probe:' + name)

    def fault(self, name):
        self.count('fault:' + name)
        self.nontrivial = True

    def seen(self, *state):
        self.states.add(hash(state) & 0xffffffffffff)

    def advance(self, dt):
        self.now += dt
        if dt > 0:
            self.simtime += dt

    def fail(self, kind, msg, *args):
        if args:
            msg = msg % args
        v = Violation(kind, text(msg, 600) if not isinstance(msg, str) else msg[:900])
        if self.violation is None:
            self.violation = v
            self.log('VIOLATION', kind)
        raise v

    def check(self, cond, kind, msg='', *args):
        if not cond:
            self.fail(kind, msg, *args)

    def same(self, got, expected, kind, what=''):
        if not (got == expected):
            self.fail(kind, '%s: got %s, expected %s' % (
                what, text(got, 300), text(expected, 300)))

    def attempt(self, func, *args, **kw):
        """Call repository code: (True, result) or (False, exception)"""
        try:
            return True, func(*args, **kw)
        except (Violation, HarnessError, SimKilled, SimHang, Unfinished):
            raise
        except BaseException as e:
            if self.violation is not None:
                raise self.violation
            return False, e

    def must(self, kind, func, *args, **kw):
        """Call repository code that has to succeed"""
        ok, res = self.attempt(func, *args, **kw)
        if not ok:
            self.fail(kind, 'unexpected %s' % exc_text(res))
        return res

    def digest(self):
        return hashlib.sha1('\n'.join(self.events)).hexdigest()[:16]

    # ---- deterministic identity hashes
    def next_hash(self):
        self.hash_count += 1
        return (self.hash_count * self.hash_mult) & 0x7fffffff

    # ---- executed statements: hang detection, preemption, coverage
    def line(self, lines, idx):
        self.lines += 1
        if self.lines > self.line_budget:
            self.hang(lines[idx])
        if self.cov is not None:
            self.cov.add(lines[idx])
        if self.threads is not None and not self.importing:
            self.threads.line()

    def hang(self, where):
        msg = 'more than %d statements executed, last in %s' % (
            self.line_budget, where[0][len(REPO) + 1:])
        if self.violation is None:
            self.violation = Violation('no-progress', msg)
        if self.hard is not None:
            self.hard(self)
        self.lines = -10 * self.line_budget  # let it unwind
        raise SimHang(msg)


# ------------------------------------------------------------------ threads

class SimThread(object):
    def __init__(self, idx, name, func, args):
        self.idx = idx
        self.name = name
        self.func = func
        self.args = args
        self.sem = Semaphore(0)
        self.done = False
        self.ok = None
        self.value = None
        self.abort = False


class Threads(object):
    """
    Caller threads of the simulated process.  They are real threads, but only
    the one that holds the baton runs; the tape decides at which executed
    line or system call of the repository code the baton goes to whom.
    """
    def __init__(self, sim, mean=12):
        self.sim = sim
        self.threads = []
        self.active = None
        self.main = Semaphore(0)
        self.mean = mean
        self.countdown = 0
        self.harness_exc = None
        self.switches = 0
        self.aborting = False

    def spawn(self, name, func, *args):
        t = SimThread(len(self.threads), name, func, args)
        self.threads.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            if t.abort:
                return
            t.value = t.func(*t.args)
            t.ok = True
        except (Violation, HarnessError, SimHang) as e:
            if self.harness_exc is None:
                self.harness_exc = e
        except (Unfinished, SimKilled):
            pass
        except BaseException as e:
            t.ok = False
            t.value = e
        finally:
            t.done = True
            self._leave(t)

    def _leave(self, t):
        if self.aborting:
            return
        nxt = self._choose(None)
        if nxt is None or self.harness_exc is not None:
            self.main.release()
        else:
            self.sim.log('run', nxt.name)
            self.active = nxt
            nxt.sem.release()

    def _choose(self, cur):
        ready = [t for t in self.threads if not t.done and t is not cur]
        if not ready:
            return None
        return ready[self.sim.draw(len(ready))]

    def _reload(self):
        # lines until the next preemption; tape value 0 = run to the end
        v = self.sim.draw(self.mean * 2 + 1)
        self.countdown = v if v else 10 ** 9

    def line(self):
        self.countdown -= 1
        if self.countdown <= 0:
            self.switch()

    def syscall(self):
        if self.active is not None and self.sim.chance(25):
            self.switch()

    def switch(self):
        if self.aborting:
            raise Unfinished()
        t = self.active
        if t is None:
            return
        self._reload()
        nxt = self._choose(t)
        if nxt is None or self.harness_exc is not None:
            return
        self.switches += 1
        self.sim.log('switch', nxt.name)
        self.active = nxt
        nxt.sem.release()
        t.sem.acquire()
        if t.abort:
            raise Unfinished()

    def run(self):
        """Run all threads to completion under a schedule from the tape"""
        sim = self.sim
        jts = []
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,))
            th.setDaemon(True)
            th.start()
            jts.append(th)
        self._reload()
        first = self._choose(None)
        if first is None:
            return
        sim.threads = self
        try:
            self.active = first
            sim.log('run', first.name)
            first.sem.release()
            self.main.acquire()
        finally:
            sim.threads = None
            self.active = None
        self.aborting = True
        for t, th in zip(self.threads, jts):
            if not t.done:
                t.abort = True
                t.sem.release()
            th.join()
        sim.count('preemptions', self.switches)
        if self.switches:
            sim.nontrivial = True
        if self.harness_exc is not None:
            raise self.harness_exc
        if sim.violation is not None:
            raise sim.violation
